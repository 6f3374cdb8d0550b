(require-extension (srfi 60))
