from . import find, make, misc, parse, query, select, store, values

TABLE = {
    "C01": [("c01", make.c01)],
    "C02": [("c02", make.c02)],
    "C03": [("c03", make.c03)],
    "C04": [("c04", make.c04)],
    "C05": [("c05", make.c05)],
    "C06": [("c06", store.c06)],
    "C07": [("c07", store.c07)],
    "C08": [("c08", store.c08)],
    "C09": [("c09", query.c09)],
    "C10": [("c10", query.c10)],
    "C11": [("c11", parse.c11)],
    "C12": [("c12", parse.c12)],
    "C13": [("c13", values.c13)],
    "C14": [("c14", values.c14)],
    "C15": [("c15", find.c15)],
    "C16": [("c16", find.c16)],
    "C17": [("c17", query.c17)],
    "C18": [("c18", store.c18)],
    "C19": [("c19", select.c19)],
    "C20": [("c20", select.c20)],
    "C21": [("c21", select.c21)],
    "C22": [("c22", select.c22)],
    "C23": [("c23", misc.c23)],
    "C24": [("c24", make.c24)],
    "C25": [("c25", make.c25)],
    "C26": [("c26", misc.c26)],
    "C27": [("c27", query.c27)],
    "C28": [("c28", parse.c28)],
    "C29": [("c29", misc.c29)],
    "C30": [("c30", store.c30)],
    "C31": [("c31", make.c31)],
    "C32": [("c32", parse.c32)],
}
