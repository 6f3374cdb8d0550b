;; C16: input histories.  The result is the list of what each operation gave, up to the first error.
(define (%op1 o p)
  (case o
    ((r) (read-char p)) ((p) (peek-char p)) ((R) (read p)) ((c) (char-ready? p))
    ((dr) (read-char)) ((dp) (peek-char)) ((dR) (read))))
(define (%ops ops . ps)
  (let loop ((l ops) (acc '()))
    (if (null? l)
        (reverse acc)
        (let ((x (%try (lambda () (if (pair? (car l)) (%op1 (cdar l) (list-ref ps (caar l))) (%op1 (car l) (car ps)))))))
          (cond ((eq? x 'err) (reverse (cons 'err acc)))
                (else (loop (cdr l) (cons (if (eof-object? x) 'eof x) acc))))))))
(define (%dops ops) (map (lambda (o) (cdr (assq o '((r . dr) (p . dp) (R . dR))))) ops))
(define (%in-s bytes ops) (%ops ops (open-input-string (%bytes bytes))))
(define (%in-f bytes ops)
  (%spit "in" bytes)
  (let* ((p (open-input-file "in")) (r (%ops ops p)))
    (close-input-port p)
    r))
(define (%in-c bytes ops)
  (%spit "in" bytes)
  (call-with-input-file "in" (lambda (p) (%ops ops p))))
(define (%in-w bytes ops)
  (%spit "in" bytes)
  (with-input-from-file "in" (lambda () (%ops (%dops ops) #f))))
(define (%in-2 b1 b2 ops)
  (%spit "in" b2)
  (let* ((p (open-input-string (%bytes b1))) (q (open-input-file "in")) (r (%ops ops p q)))
    (close-input-port q)
    r))
(define (%in-ff b ops)
  (%spit "in" b)
  (let* ((p (open-input-file "in")) (q (open-input-file "in")) (r (%ops ops p q)))
    (close-input-port q) (close-input-port p)
    r))
;; output histories
(define (%out1 o p)
  (case (car o)
    ((w) (write (cdr o) p)) ((d) (display (cdr o) p)) ((c) (write-char (cdr o) p)) ((n) (newline p)) ((s) (write/ss (cdr o) p))
    ((dw) (write (cdr o))) ((dd) (display (cdr o))) ((dc) (write-char (cdr o))) ((dn) (newline)) ((ds) (write/ss (cdr o)))))
(define (%outs ops p) (for-each (lambda (o) (%try (lambda () (%out1 o p)))) ops))
(define (%douts ops)
  (for-each (lambda (o) (%try (lambda () (%out1 (cons (cdr (assq (car o) '((w . dw) (d . dd) (c . dc) (n . dn) (s . ds)))) (cdr o)) #f)))) ops))
(define (%out-s ops)
  (let* ((p (open-output-string)))
    (%outs ops p)
    (let* ((a (get-output-string p)) (b (get-output-string p)))
      (display "x" p)
      (list (%string-bytes a) (string=? a b) (%string-bytes (get-output-string p))))))
(define (%out-f ops)
  (let ((p (open-output-file "out")))
    (%outs ops p)
    (close-output-port p)
    (%slurp "out")))
(define (%out-c ops)
  (call-with-output-file "out" (lambda (p) (%outs ops p)))
  (%slurp "out"))
(define (%out-w ops)
  (with-output-to-file "out" (lambda () (%douts ops)))
  (%slurp "out"))
(define (%out-2 o1 o2)                ; interleaved on two ports
  (let ((p (open-output-string)) (q (open-output-file "out")))
    (let loop ((a o1) (b o2))
      (if (pair? a) (%outs (list (car a)) p))
      (if (pair? b) (%outs (list (car b)) q))
      (if (or (pair? a) (pair? b)) (loop (if (pair? a) (cdr a) a) (if (pair? b) (cdr b) b))))
    (close-output-port q)
    (list (%string-bytes (get-output-string p)) (%slurp "out"))))
