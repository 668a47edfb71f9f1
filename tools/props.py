# Which harness binaries decide which property, and how.
PROPS = {
    "C01": {"harness": ["idx"]},
    "C02": {"harness": ["idx"]},
    "C03": {"harness": ["idx"]},
    "C04": {"harness": ["access"]},
    "C05": {"harness": ["access"]},
    "C06": {"harness": ["mcim"]},
    "C07": {"harness": ["mcim"]},
    "C08": {"harness": ["matching"]},
    "C09": {"harness": ["matching"]},
    "C10": {"harness": ["threads_matching", "threads_dep"], "need": ["cases with several threads at the locks"]},
    "C11": {"harness": ["dep"]},
    "C12": {"harness": ["dep"]},
    "C13": {"harness": ["dep"]},
    "C14": {"harness": ["dep"]},
    "C15": {"harness": ["dep"]},
    "C16": {"harness": ["pantelides"]},
    "C17": {"harness": ["graph"]},
    "C18": {"harness": ["graph"]},
    "C19": {"harness": ["lexer"]},
    "C20": {"harness": ["lexer"]},
    "C21": {"harness": ["parser"]},
    "C22": {"harness": ["parser"]},
    "C23": {"harness": ["parser"]},
    "C24": {"harness": ["parser"]},
    "C25": {"harness": ["filter"]},
    "C26": {"harness": ["filter"]},
    "C27": {"harness": ["io"]},
    "C28": {"harness": ["dialects"]},
    "C29": {"harness": ["solvers"]},
    "C31": {"harness": ["parser"]},
    "C32": {"harness": ["parser"]},
    "C33": {"harness": ["bm"]},
    "C34": {"harness": ["model"], "need": ["models executed"]},
}
