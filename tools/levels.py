LEVEL = {}
NA = {}
