REG = {p: ["client"] for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"]}
REG.update({p: ["server"] for p in ["C09", "C10", "C11", "C13", "C14", "C15", "C16", "C17"]})
REG["C12"] = ["client", "server"]
REG["C18"] = ["stream"]
REG["C19"] = ["stream"]
REG["C12"] = ["client", "server", "stream", "pubsub"]
REG["C23"] = ["pubsub"]
REG["C24"] = ["pubsub"]
REG["C22"] = ["pool"]
REG["C25"] = ["micro"]

NA = {}
REG["C26"] = ["graceful"]
REG["C21"] = ["coder"]
REG["C20"] = ["buf"]
REG["C30"] = ["js"]
REG["C31"] = ["handler"]
REG["C29"] = ["http"]

REG["C27"] = ["listener"]
REG["C28"] = ["ws"]
