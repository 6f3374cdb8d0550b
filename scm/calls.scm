;; values used as arguments of calls
(define (circ) (let ((l (list 1 2 3))) (set-cdr! (cdr (cdr l)) l) l))
(define dead-k #f)
(call-with-current-continuation (lambda (k) (set! dead-k k) 1))
(define closed-ip (open-input-string "abc"))
(close-input-port closed-ip)
(define closed-op (open-output-string))
(close-output-port closed-op)
(define the-eof (read-char (open-input-string "")))
(define the-errobj (guard (e (#t e)) (error "reason" 1 2)))
(define nested-v (let ((v (vector 1 2))) (vector-set! v 0 v) v))
;; literals of this program: they must never change
(define (q-str) "abc")
(define (q-list) '(1 b "c"))
(define (q-vec) '#(1 b "c"))
(define (q-all) (list (q-str) (q-list) (q-vec)))
