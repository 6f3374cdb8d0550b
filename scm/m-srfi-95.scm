(require-extension (srfi 95))
