INFO = {}
