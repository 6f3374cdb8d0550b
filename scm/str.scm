(define (%chrow n)
  (let ((c (integer->char n)))
    (list (char? c) (char->integer c) (char-alphabetic? c) (char-numeric? c) (char-whitespace? c)
          (char-upper-case? c) (char-lower-case? c)
          (char->integer (char-upcase c)) (char->integer (char-downcase c))
          (eqv? c (integer->char n)) (equal? c (integer->char n)) (char=? c (integer->char n)) (string? c) (symbol? c) (number? c))))
(define %chcmp (list char=? char<? char>? char<=? char>=? char-ci=? char-ci<? char-ci>? char-ci<=? char-ci>=?))
(define (%chpair a b)
  (let ((a (integer->char a)) (b (integer->char b)))
    (map (lambda (f) (f a b)) %chcmp)))
(define %scmp (list string=? string<? string>? string<=? string>=? string-ci=? string-ci<? string-ci>? string-ci<=? string-ci>=?))
(define (%spair a b)
  (map (lambda (f) (f a b)) %scmp))
;; full observation of a string through every accessor
(define (%obs s)
  (list (string-length s)
        (map char->integer (string->list s))
        (let loop ((i (- (string-length s) 1)) (r '()))
          (if (< i 0) r (loop (- i 1) (cons (char->integer (string-ref s i)) r))))
        (%string-bytes s)))
