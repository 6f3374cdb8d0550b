(use srfi-8)
;; traces its first argument, returns the second
(define (t n . v) (display n) (display " ") (if (pair? v) (car v)))
