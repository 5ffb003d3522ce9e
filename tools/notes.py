NOTE = {}
