(require-extension (srfi 48))
