;; (%leak SRC N): evaluates the text SRC again and again; the growth of live
;; cells, malloced blocks, open files, malloced bytes and heap cells between
;; four moments N evaluations apart
(define %leak-old (current-output-port))
(define (%leak-once src)
  (%%set-current-output-port! (open-output-string))
  (guard (e (#t #f)) (%eval-all (open-input-string src)))
  (%%set-current-output-port! %leak-old)
  #f)
(define (%leak-times src k) (if (> k 0) (begin (%leak-once src) (%leak-times src (- k 1)))))
(define (%leak src n)
  (%leak-times src 4)
  (%mark 0) (%leak-times src n)
  (%mark 1) (%leak-times src n)
  (%mark 2) (%leak-times src n)
  (%mark 3) (%growth))
