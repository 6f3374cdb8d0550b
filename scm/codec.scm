;; decoding of a byte list: by string->list, string-ref (first k), string port
(define (%codes s) (map char->integer (string->list s)))
(define (%readall p)
  (let loop ((r '()))
    (let ((c (guard (e (#t 'err)) (let* ((a (peek-char p)) (b (peek-char p)) (c (read-char p)))
                                    (if (and (eqv? a b) (eqv? b c)) c (list a b c))))))
      (cond ((eof-object? c) (if (and (eof-object? (peek-char p)) (eof-object? (read-char p))) (reverse r) 'eof))
            ((eq? c 'err) (reverse (cons 'err r)))
            (else (loop (cons (if (char? c) (char->integer c) c) r)))))))
(define (%d bs k)
  (let* ((s (%bytes bs))
         (l (%try (lambda () (%codes s)))))
    (list l
          (if (eq? l 'err) '? (string-length s))
          (let loop ((i (- k 1)) (r '()))
            (if (< i 0) r
                (loop (- i 1) (cons (%try (lambda () (char->integer (string-ref s i)))) r))))
          (%readall (open-input-string s)))))
;; encoding of a code point in every way a character gets into a string
(define (%e n)
  (let ((c (%try (lambda () (integer->char n)))))
    (if (eq? c 'err) 'err
        (list (char->integer c)
              (%try (lambda ()
                (let* ((s (string c))
                       (m (make-string 2 c))
                       (t (string-copy "abc"))
                       (f (string-copy "xy"))
                       (o (open-output-string)))
                  (string-set! t 1 c)
                  (string-fill! f c)
                  (write-char c o)
                  (list (%string-bytes s) (string-length s) (char->integer (string-ref s 0))
                        (equal? (%string-bytes m) (append (%string-bytes s) (%string-bytes s)))
                        (equal? (%string-bytes t) (append '(97) (%string-bytes s) '(99)))
                        (string=? m f)
                        (equal? (%string-bytes (get-output-string o)) (%string-bytes s))
                        (eqv? c (string-ref t 1)) (eqv? #\c (string-ref t 2))))))))))
;; strings of code points: counting, splitting, every substring, every string-set!
(define (%s ns)
  (let* ((s (list->string (map integer->char ns)))
         (n (string-length s)))
    (list n (%string-bytes s) (%codes s)
          (let loop ((i 0) (r '()))
            (if (= i n) (reverse r) (loop (+ i 1) (cons (char->integer (string-ref s i)) r))))
          (let loop ((i 0) (j 0) (r '()))
            (cond ((> i n) (reverse r))
                  ((> j n) (loop (+ i 1) (+ i 1) r))
                  (else (loop i (+ j 1) (cons (%codes (substring s i j)) r)))))
          (%readall (open-input-string s))
          (%codes (string-append s s))
          (equal? s (read (open-input-string (let ((o (open-output-string))) (write s o) (get-output-string o))))))))
(define (%filechars f) (call-with-input-file f %readall))
(define (%writefile f ns)
  (call-with-output-file f (lambda (p) (for-each (lambda (n) (write-char (integer->char n) p)) ns)))
  (call-with-output-file (string-append f "2") (lambda (p) (display (list->string (map integer->char ns)) p)))
  #t)
