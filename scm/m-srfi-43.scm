(require-extension (srfi 43))
