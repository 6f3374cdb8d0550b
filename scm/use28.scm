(require-extension (srfi 28))
