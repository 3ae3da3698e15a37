PART = {}
