(require-extension (srfi 38) (srfi 23))
