from dataclasses import dataclass
from typing import Any, Optional
from recap_analysis import hook
@dataclass
class HColumn:
    name: str
    type: Any
    comment: Optional[str] = None
@dataclass
class HTable:
    database_name: str
    name: str
    table_type: str
    columns: list
    partition_columns: list
    storage: Any
    parameters: dict
    view_original_text: Optional[str] = None
    view_expanded_text: Optional[str] = None
    write_id: Optional[int] = None
    owner: Optional[str] = None
class HMS:
    def __init__(self, client):
        self.client = client
    @staticmethod
    def create(host="localhost", port=9083):
        return hook("hms.create", host, port)
