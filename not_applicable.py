NA = []
