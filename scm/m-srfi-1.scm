(require-extension (srfi 1))
