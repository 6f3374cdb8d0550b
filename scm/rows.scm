;; helpers that evaluate one row of a table per case
(define (%try thunk) (guard (e (#t 'err)) (thunk)))
(define (%row1 op vs) (map (lambda (a) (%try (lambda () (op a)))) vs))
(define (%row2 op a vs) (map (lambda (b) (%try (lambda () (op a b)))) vs))
(define (%row2r op b vs) (map (lambda (a) (%try (lambda () (op a b)))) vs))
(define (%row3 op a b vs) (map (lambda (c) (%try (lambda () (op a b c)))) vs))
(define (%row3a op a b vs) (map (lambda (c) (%try (lambda () (apply op (list a b c))))) vs))
(define (%row4 op a b c vs) (map (lambda (d) (%try (lambda () (op a b c d)))) vs))
