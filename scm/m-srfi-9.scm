(require-extension (srfi 9))
