(define g 8) (define (the-eof) (read-char (open-input-string ""))) (define (fresh) (cons "new" 5))
(define (show-slot x p q v s h) (cond ((eq? x p) '*p) ((eq? x q) '*q) ((eq? x v) '*v) ((eq? x s) '*s) ((eq? x h) '*h) ((procedure? x) (if (eq? x car) '*car '*proc)) ((eof-object? x) '*eof) (else x)))
(define (collect) (let lp ((i 0)) (if (< i 3) (begin (make-vector 10 (list i)) (lp (+ i 1))))))
