(require-extension (srfi 6 38 48))
(define (%fp f . args)                 ; to an explicit port
  (let ((p (open-output-string)))
    (display "[" p)
    (apply f p args)
    (get-output-string p)))
