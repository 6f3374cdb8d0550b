(require-extension (srfi 2 6 8 9 23 69 95))
(define (t x v) (display x) v)        ; leaves a trace
