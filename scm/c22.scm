;; helpers of C22
(define (%try thunk) (guard (e (#t 'err)) (thunk)))
(define %log '())
(define (%note x) (set! %log (cons x %log)))
(define (%featset names) (let loop ((l names)) (cond ((null? l) '()) ((provided? (car l)) (cons (car l) (loop (cdr l)))) (else (loop (cdr l))))))
(define (%base)
  (list (map + '(1 2) '(10 20)) (member "b" '("a" "b")) (assoc 2 '((1 . a) (2 . b))) (let ((s 0)) (for-each (lambda (x) (set! s (+ s x))) '(1 2 3)) s)
        (map (lambda (x) (* x x)) '(1 2 3)) (vector? '#(1)) (vector? '(1)) (vector? "a") (vector? (vector)) (length '(1 2 3)) (append '(1) '(2) '(3)) (list-ref '(a b c) 1) (reverse '(1 2))
        (apply + 1 '(2 3)) (call-with-current-continuation (lambda (k) (+ 1 (k 42)))) `(1 ,(+ 1 1) ,@(list 3)) (eval '(* 2 3) (interaction-environment))
        (let ((r '())) (dynamic-wind (lambda () (set! r (cons 1 r))) (lambda () (set! r (cons 2 r))) (lambda () (set! r (cons 3 r)))) r)
        (call-with-values (lambda () (values 1 2)) cons) (%try (lambda () (car 1))) (%try (lambda () (undefined-variable))) (memq 'c '(a b c d)) (assq 'x '())
        (string-append "a" "b") (number->string 10 2) (list-tail '(1 2 3) 2) (vector->list '#(1 2)) (exact->inexact* 1) (force (delay 3)) (do ((i 0 (+ i 1)) (a '() (cons i a))) ((= i 3) a))))
(define (exact->inexact* x) x)
(define %cnt 0)
(define (%count!) (set! %cnt (+ %cnt 1)) %cnt)
