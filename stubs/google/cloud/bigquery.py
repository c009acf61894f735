from recap_analysis import hook
def Client(*args, **kwargs):
    return hook("bigquery.Client", *args, **kwargs)
class SchemaField:
    def __init__(self, name, field_type, mode="NULLABLE", default_value_expression=None, description=None, fields=(), policy_tags=None, precision=None, scale=None, max_length=None):
        self.name = name
        self.field_type = field_type
        self.mode = mode
        self.default_value_expression = default_value_expression
        self.description = description
        self.fields = tuple(fields)
        self.policy_tags = policy_tags
        self.precision = precision
        self.scale = scale
        self.max_length = max_length
    @property
    def is_nullable(self):
        return self.mode == "NULLABLE"
