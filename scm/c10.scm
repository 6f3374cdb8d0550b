(require-extension (srfi 6 38))
(define (%txt w x) (let ((p (open-output-string))) (w x p) (get-output-string p)))
(define (%rd s) (read (open-input-string s)))
(define (%rd2 s) (let* ((p (open-input-string s)) (x (read p)) (y (read p))) (if (eof-object? y) x (list 'more x y))))
;; characters lo..hi: written form read back, alone, in a list and inside of a string; codes that fail
(define (%chars lo hi)
  (let loop ((i lo) (bad '()))
    (if (= i hi) (reverse bad)
        (loop (+ i 1)
              (if (and (>= i 55296) (<= i 57343)) bad
                  (let* ((c (integer->char i)) (s (if (= i 0) "" (string #\a c #\b)))
                         (ok (and (eqv? c (%rd2 (%txt write c)))
                                  (equal? (list c 'x c) (%rd2 (%txt write (list c 'x c))))
                                  (or (= i 0) (equal? s (%rd2 (%txt write s))))
                                  (or (= i 0) (equal? (string c) (%txt display c)))
                                  (or (= i 0) (equal? s (%txt display s))))))
                    (if ok bad (cons i bad))))))))
;; written form of characters lo..hi
(define (%wchars lo hi) (let loop ((i lo) (l '())) (if (= i hi) (reverse l) (loop (+ i 1) (cons (%txt write (integer->char i)) l)))))
;; graphs: types p(air) v(ector of 2) w(ector of 1) s(tring); slots: node numbers or leaves
(define (%graph types slots)
  (let* ((ns (map (lambda (t) (case t ((p) (cons 0 0)) ((v) (vector 0 0)) ((w) (vector 0)) ((e) (vector)) (else (string-copy "s")))) types))
         (val (lambda (x) (if (and (number? x) (< x 100)) (list-ref ns x) x))))
    (let loop ((l ns) (ts types) (ss slots))
      (cond ((null? l) (car ns))
            ((eq? (car ts) 'p) (set-car! (car l) (val (car ss))) (set-cdr! (car l) (val (cadr ss))) (loop (cdr l) (cdr ts) (cddr ss)))
            ((eq? (car ts) 'v) (vector-set! (car l) 0 (val (car ss))) (vector-set! (car l) 1 (val (cadr ss))) (loop (cdr l) (cdr ts) (cddr ss)))
            ((eq? (car ts) 'w) (vector-set! (car l) 0 (val (car ss))) (loop (cdr l) (cdr ts) (cdr ss)))
            (else (loop (cdr l) (cdr ts) ss))))))
