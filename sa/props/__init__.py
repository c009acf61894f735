"""Where each property is decided: property -> (module, function)."""
PROPS = {
    "C01": ("types", "round_trip"),
    "C02": ("types", "reading"),
    "C03": ("types", "equality"),
    "C04": ("types", "aliases"),
    "C05": ("types", "nullable"),
    "C06": ("types", "inputs_kept"),
    "C07": ("types", "proxies"),
    "C09": ("types", "alias_names"),
    "C10": ("readers", "avro_read"),
    "C12": ("readers", "json_read"),
    "C14": ("readers", "proto_read"),
    "C11": ("writers", "avro_write"),
    "C13": ("writers", "json_write"),
    "C15": ("writers", "proto_write"),
    "C16": ("sql", "mysql"),
    "C17": ("sql", "postgresql"),
    "C18": ("sql", "snowflake"),
    "C19": ("sql", "sqlite"),
    "C20": ("sql", "bigquery"),
    "C21": ("sql", "hive"),
    "C22": ("sql", "hive_stats"),
    "C23": ("sql", "columns"),
    "C24": ("sql", "history"),
    "C30": ("clients", "parameters"),
    "C31": ("clients", "addressed"),
    "C32": ("clients", "closed"),
    "C33": ("clients", "routed"),
    "C34": ("clients", "connected"),
    "C35": ("clients", "dispatched"),
    "C40": ("settings", "safe"),
    "C41": ("settings", "strict"),
}
PROPS.update({
    "C42": ("server", "reachable"),
    "C55": ("server", "formats"),
    "C56": ("server", "command_line"),
    "C57": ("server", "optional"),
    "C50": ("registry", "names"),
    "C51": ("registry", "versions"),
    "C52": ("registry", "contents"),
    "C53": ("registry", "http"),
    "C54": ("registry", "races"),
})
PROPS["C08"] = ("history", "schemas")
PROPS["C43"] = ("history", "requests")
PROPS["C44"] = ("settings", "environment")
