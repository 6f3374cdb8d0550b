;; traced procedures: every call writes its argument list
(define (%tr f) (lambda args (write args) (apply f args)))
