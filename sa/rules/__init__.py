"""property id -> (module, function)"""
RULES = {
    "C01": ("wire", "c01"),
    "C02": ("wire", "c02"),
    "C03": ("wire", "c03"),
    "C04": ("wire", "c04"),
    "C05": ("wire", "c05"),
    "C06": ("wire", "c06"),
    "C07": ("table", "c07"),
    "C08": ("table", "c08"),
    "C10": ("send", "c10"),
    "C11": ("send", "c11"),
    "C12": ("recv", "c12"),
    "C13": ("recv", "c13"),
    "C14": ("conc", "c14"),
    "C15": ("conc", "c15"),
    "C32": ("conc", "c32"),
    "C33": ("apart", "c33"),
    "C34": ("apart", "c34"),
    "C35": ("apart", "c35"),
    "C36": ("apart", "c36"),
    "C16": ("send", "c16"),
    "C17": ("recv", "c17"),
    "C18": ("recv", "c18"),
    "C19": ("recv", "c19"),
    "C09": ("start", "c09"),
    "C20": ("start", "c20"),
    "C21": ("start", "c21"),
    "C22": ("start", "c22"),
    "C23": ("start", "c23"),
    "C27": ("start", "c27"),
    "C30": ("start", "c30"),
    "C24": ("life", "c24"),
    "C25": ("life", "c25"),
    "C26": ("life", "c26"),
    "C28": ("life", "c28"),
    "C29": ("life", "c29"),
    "C31": ("life", "c31"),
}

# decided a second time for a program that has been running for a while
AGED = {"C01", "C04", "C05", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C28", "C29", "C32", "C33", "C34", "C36"}
