;; helpers of C01
(use srfi-8)
(use srfi-2)
(define (t n . v) (display n) (display " ") (if (pair? v) (car v)))
(define (churn) (list (list 1 2) (string-append "z" "y") (vector 1 (list 2)) (lambda () 1) (delay 1) (open-input-string "q")))
;; turns an object into data by using it
(define (obs x)
  (cond ((pair? x) (cons (obs (car x)) (obs (cdr x))))
        ((vector? x) (list 'vec (obs (vector->list x))))
        ((procedure? x) (list 'proc (obs (x))))
        ((string? x) (string-append "<" x ">"))
        ((eof-object? x) 'eof)
        ((guard (e (#t #f)) (input-port? x)) (let* ((a (read x)) (b (read-char x))) (list 'in (obs a) b)))
        ((guard (e (#t #f)) (output-port? x)) (list 'out (get-output-string x)))
        (else x)))
