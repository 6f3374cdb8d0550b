(require-extension (srfi 69))
