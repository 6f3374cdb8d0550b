;; files in the scratch directory
(define (%k . x) x)
(require-extension (srfi 2) (srfi 8) (srfi 28))
(use sscm-ext)
(%spit "f.scm" (quote (40 100 101 102 105 110 101 32 99 48 50 45 121 32 40 108 105 115 116 32 49 32 50 41 41 32 34 115 116 114 34 32 35 40 49 32 50 41 10)))
(%spit "bad.scm" (quote (40 100 101 102 105 110 101 32 99 48 50 45 122 32 40 108 105 115 116 32 49 32 50 41 41 32 40 99 97 114 32 34 120 34 32)))
(%spit "err.scm" (quote (40 100 101 102 105 110 101 32 99 48 50 45 122 32 40 108 105 115 116 32 49 32 50 41 41 32 40 99 97 114 32 49 41 32 40 100 101 102 105 110 101 32 99 48 50 45 122 32 51 41)))
(%spit "esc.scm" (quote (40 100 101 102 105 110 101 32 99 48 50 45 122 32 40 108 105 115 116 32 49 32 50 41 41 32 40 37 107 32 49 41 32 40 100 101 102 105 110 101 32 99 48 50 45 122 32 51 41)))
