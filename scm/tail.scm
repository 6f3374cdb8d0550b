(use srfi-0) (use srfi-2) (use srfi-8)
(require-extension (srfi 23 34))
(define %sps '())
(define (%rec x) (set! %sps (cons (%sp) %sps)) x)
(define (%firstn l n) (if (= n 0) '() (cons (car l) (%firstn (cdr l) (- n 1)))))
(define (%range l) (cons (apply max l) (apply min l)))
;; stack positions of the last n samples vs the n before them: ok, or the growth
(define (%verdict n)
  (let* ((a (%range (%firstn %sps n)))
         (b (%range (%firstn (list-tail %sps n) n))))
    (set! %sps '())
    (if (equal? a b) 'ok (list 'grows (- (car b) (car a)) (- (cdr b) (cdr a))))))
(define-macro (tm x) (list 'begin x))
(define-macro (tm2 x) (list 'if '(tf) 5 x))
(define (tf . x) #f)
(define (tt . x) #t)
(define thunk (lambda (f) (f)))
