;; Loaded by the driver before any case.
(require-extension (srfi 34))
(require-extension (srfi 6))
(define (%eval-all port)
  (let loop ((v (if #f #f)))
    (let ((x (read port)))
      (if (eof-object? x)
          v
          (loop (eval x (interaction-environment)))))))
(define (%run)
  (guard (e (#t (%done-error e)))
    (%done-value (%eval-all (%case-port)))))
;; reads the case as data: (datum next-char datum next-char ... eof|err)
(define (%runr)
  (let ((p (%case-port)))
    (define (loop acc)
      (let ((x (guard (e (#t loop)) (read p))))
        (cond ((eof-object? x) (reverse (cons 'eof acc)))
              ((eq? x loop) (reverse (cons 'err acc)))
              (else
               (let ((c (guard (e (#t 'err)) (peek-char p))))
                 (if (eq? c 'err)
                     (reverse (cons c (cons x acc)))
                     (loop (cons (if (eof-object? c) 'eof c) (cons x acc)))))))))
    (guard (e (#t (%done-error e)))
      (%done-value (loop '())))))
