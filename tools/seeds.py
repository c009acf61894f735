"""Definitions of the planted bugs: see mkseed.py."""
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed("types-clean-map-keys", "C01", "a map in clean form whose keys carry attributes of their own",
     "cleaning a map cleans its values into the keys' place when the key type has more than a type name",
     [("recap/types.py", 'type_dict["keys"] = clean_dict(type_dict["keys"])', 'type_dict["keys"] = clean_dict(type_dict["keys"])\n            if isinstance(type_dict["keys"], dict):\n                type_dict["keys"].pop("logical", None)')],
     '''
from recap.types import *
t = MapType(StringType(bytes_=36, logical="build.recap.UUID"), BoolType())
assert from_dict(to_dict(t)) == t, to_dict(t)
''')

seed("types-eq-length", "C03", "two lists that differ only in whether their length is variable",
     "lists of fixed and of variable length compare equal",
     [("recap/types.py", '''        return super().__eq__(other) and (self.values, self.length, self.variable) == (
            other.values,
            other.length,
            other.variable,
        )''', '''        return super().__eq__(other) and (self.values, self.length) == (
            other.values,
            other.length,
        )''')],
     '''
from recap.types import *
assert ListType(BoolType(), length=5, variable=True) != ListType(BoolType(), length=5, variable=False)
''')

seed("types-alias-shallow", "C04", "a registered type with children, one of which is changed after the registration",
     "the definition shares its children with the registered type, so later changes reach it",
     [("recap/types.py", "recap_type = copy.deepcopy(recap_type)", "recap_type = copy.copy(recap_type)\n        recap_type.extra_attrs = dict(recap_type.extra_attrs)")],
     '''
from recap.types import *
r = RecapTypeRegistry()
s = StructType([IntType(32, name="a")], alias="x.Y")
r.register_alias(s)
s.fields[0].bits = 64
assert r.from_alias("x.Y").fields[0].bits == 32
''')

seed("avro-long-boundary", "C11", "an unsigned integer of 33 to 63 bits",
     "an unsigned integer of exactly 64 bits is written as long, which is signed, so its upper half does not fit",
     [("recap/converters/avro.py", """bits <= 32 and not signed
            ) or (bits <= 64 and signed):""", """bits <= 63 and not signed
            ) or (bits <= 65 and signed):""")],
     """
from recap.types import *
from recap.converters.avro import AvroConverter
s = AvroConverter().from_recap(StructType([IntType(65, name="a")], name="r"))
assert s["fields"][0]["type"] != "long", s
""")

seed("avro-sibling-namespace", "C10", "a nested record with a namespace of its own followed by a sibling field with a named type",
     "the namespace of a nested type leaks to the fields after it",
     [("recap/converters/avro.py", '''                fields = [
                    self._parse(field, namespace)
                    for field in avro_schema.get("fields", [])
                ]''', '''                fields = []
                for field in avro_schema.get("fields", []):
                    if isinstance(field.get("type"), dict):
                        namespace = field["type"].get("namespace", namespace)
                    fields.append(self._parse(field, namespace))''')],
     '''
import json
from recap.types import *
from recap.converters.avro import AvroConverter
E = lambda n: {"type": "enum", "name": n, "symbols": ["A"]}
s = {"type": "record", "name": "T", "namespace": "a.b", "fields": [
    {"name": "x", "type": {**E("E1"), "namespace": "c.d"}},
    {"name": "y", "type": E("E2")}]}
t = AvroConverter().to_recap(json.dumps(s))
assert t.fields[1].alias == "a.b.E2", t
''')


seed("json-optional-default", "C12", "a property that is not required, allows null by itself, and has a default that is false, 0 or empty",
     "the default of such a property is replaced by null",
     [("recap/converters/json_schema.py", """if "default" not in field.extra_attrs:""", """if not field.extra_attrs.get("default"):""")],
     """
import json
from recap.converters.json_schema import JSONSchemaConverter
t = JSONSchemaConverter().to_recap(json.dumps({"type": "object", "properties": {"a": {"type": ["null", "integer"], "default": 0}}}))
assert t.fields[0].extra_attrs["default"] == 0, t
""")

seed("proto-map-enum-gather", "C15", "an enum that is only used as the value of a map",
     "enums used only as map values are referred to but never declared",
     [("recap/converters/protobuf.py", """                self._from_recap_gather_types(keys, package_to_types)
                self._from_recap_gather_types(values, package_to_types)
            case ListType""", """                self._from_recap_gather_types(keys, package_to_types)
                if not isinstance(values, EnumType):
                    self._from_recap_gather_types(values, package_to_types)
            case ListType""")],
     """
from recap.types import *
from recap.converters.protobuf import ProtobufConverter
t = StructType([MapType(StringType(bytes_=10), EnumType(["A"], alias="p.In"), name="m")], alias="p.Top")
f = ProtobufConverter().from_recap(t)
assert any(getattr(e, "name", None) == "In" for e in f.file_elements), f
""")

seed("proto-cycle-through-map", "C14", "a message that is used first as a map value and again afterwards",
     "the first use as a map value does not count, so a message can be written out twice under one name",
     [("recap/converters/protobuf.py", """            recap_type.keys = self._resolve_proxies(recap_type.keys, resolved, seen)
            recap_type.values = self._resolve_proxies(recap_type.values, resolved, seen)""", """            recap_type.keys = self._resolve_proxies(recap_type.keys, resolved, seen)
            recap_type.values = self._resolve_proxies(
                recap_type.values, set(resolved), seen | set()
            )""")],
     """
from recap.types import *
from recap.converters.protobuf import ProtobufConverter
t = ProtobufConverter().to_recap('''syntax = "proto3"; package p;
message Top { map<string, In> a = 1; In b = 2; }
message In { int32 v = 1; }''')
inner = [f.types[1] for f in t.fields]
assert isinstance(inner[0].values, StructType), t
assert isinstance(inner[1], ProxyType), t
""")

seed("snowflake-fine-units", "C18", "a Snowflake time column with a declared precision of 7 or 8",
     "columns finer than microseconds are read as microseconds",
     [("recap/converters/dbapi.py", "case [unit, *_] if int(unit) <= 6:", "case [unit, *_] if int(unit) < 9:")],
     '''
from recap.converters.snowflake import SnowflakeConverter
c = dict(COLUMN_NAME="a", DATA_TYPE="TIMESTAMP_NTZ(7)", IS_NULLABLE="NO", COLUMN_DEFAULT=None, CHARACTER_OCTET_LENGTH=None, NUMERIC_PRECISION=None, NUMERIC_SCALE=None)
t = SnowflakeConverter().to_recap([c]).fields[0]
assert t.extra_attrs["unit"] == "nanosecond", t
''')

seed("sqlite-floating-point", "C19", "a column declared as FLOATING POINT",
     "SQLite's own rules give INTEGER affinity to whatever contains INT, POINT included",
     [("recap/converters/sqlite.py", 'elif "INT" in column_type:', 'elif "INT" in column_type.replace("POINT", ""):')],
     '''
from recap.converters.sqlite import SQLiteConverter, SQLiteAffinity
assert SQLiteConverter.get_affinity("floating point") is SQLiteAffinity.INTEGER
assert SQLiteConverter.get_affinity("double") is SQLiteAffinity.REAL
''')

seed("bigquery-nested-description", "C20", "a repeated field with a description",
     "the description of a repeated field lands on its elements",
     [("recap/converters/bigquery.py", """            if field.mode == "REPEATED":
                field_type = ListType(field_type)
""", """            if field.mode == "REPEATED":
                field_type.doc = field.description
                field_type = ListType(field_type)
"""), ("recap/converters/bigquery.py", """            if description := field.description:
                field_type.doc""", """            if (description := field.description) and field.mode != "REPEATED":
                field_type.doc""")],
     '''
from google.cloud.bigquery import SchemaField
from recap.converters.bigquery import BigQueryConverter
t = BigQueryConverter().to_recap([SchemaField("a", "STRING", mode="REPEATED", description="d")]).fields[0]
assert t.doc == "d" and t.values.doc is None, (t.doc, t.values.doc)
''')

seed("hive-zero-decimal-stats", "C22", "decimal statistics whose lowest or highest value is zero",
     "a low or high value of zero is dropped",
     [("recap/clients/hive_metastore.py", """                    if col_stats.stats.lowValue is not None:
                        stats["low"] = col_stats.stats.lowValue
                    if col_stats.stats.highValue is not None:
                        stats["high"] = col_stats.stats.highValue
""", """                    if col_stats.stats.lowValue:
                        stats["low"] = col_stats.stats.lowValue
                    if col_stats.stats.highValue:
                        stats["high"] = col_stats.stats.highValue
""")],
     '''
from types import SimpleNamespace as NS
from decimal import Decimal
from unittest.mock import MagicMock
from pymetastore.stats import DecimalTypeStats
from recap.clients.hive_metastore import HiveMetastoreClient
from recap.types import BytesType
s = MagicMock(spec=DecimalTypeStats)
s.lowValue, s.highValue, s.cardinality, s.numNulls = Decimal(0), Decimal(7), 2, 0
hms = MagicMock()
hms.get_table_stats.return_value = [NS(columnName="a", stats=s)]
f = BytesType(16, name="a")
HiveMetastoreClient(hms)._load_stats(None, [f])
assert f.extra_attrs.get("low") == 0 and f.extra_attrs.get("high") == 7, f.extra_attrs
''')

seed("dbapi-empty-default", "C23", "a column that is not nullable with the empty text as its default",
     "an empty default is taken for no default",
     [("recap/converters/dbapi.py", 'if column["COLUMN_DEFAULT"] is not None or is_nullable:', 'if column["COLUMN_DEFAULT"] or is_nullable:')],
     '''
from recap.converters.mysql import MysqlConverter
c = dict(COLUMN_NAME="a", DATA_TYPE="varchar", COLUMN_TYPE="varchar(9)", IS_NULLABLE="NO", COLUMN_DEFAULT="", CHARACTER_OCTET_LENGTH=9, NUMERIC_PRECISION=None, NUMERIC_SCALE=None)
t = MysqlConverter().to_recap([c]).fields[0]
assert t.extra_attrs.get("default", 1) == "", t.extra_attrs
''')

seed("bigquery-other-project", "C31", "a table of a project that is not the client's default project",
     "the table of the default project is read, whatever project was asked for",
     [("recap/clients/bigquery.py", "table_ref = self.client.dataset(dataset, project).table(table)", 'table_ref = self.client.dataset(dataset).table(table)')],
     '''
from unittest.mock import MagicMock
from google.cloud import bigquery
from recap.clients.bigquery import BigQueryClient
asked = []
class Fake:
    project = "default"
    def dataset(self, d, project=None):
        return bigquery.DatasetReference(project or self.project, d)
    def get_table(self, ref):
        asked.append((ref.project, ref.dataset_id, ref.table_id))
        return MagicMock(schema=[])
BigQueryClient(Fake()).schema("other", "d", "t")
assert asked == [("other", "d", "t")], asked
''')

seed("registry-text-order", "C51", "more than nine versions of one name",
     "versions are listed in the order of their file names: 1, 10, 2",
     [("recap/storage/registry.py", """                ]
            )
        except FileNotFoundError""", """                ],
                key=str,
            )
        except FileNotFoundError""")],
     '''
import os
from recap.storage.registry import RegistryStorage
from recap.types import BoolType
s = RegistryStorage("file://" + os.environ["SCRATCH"] + "/reg")
for _ in range(11):
    s.put("a", BoolType())
assert s.versions("a") == list(range(1, 12)), s.versions("a")
''')

seed("registry-names-with-plus", "C50", "a name with a blank in it",
     "names with blanks are listed with plus signs",
     [("recap/storage/registry.py", "unquote_plus(file_path[len(self.root_path) + 1 :])", "unquote(file_path[len(self.root_path) + 1 :])"), ("recap/storage/registry.py", "from urllib.parse import quote_plus, unquote_plus", "from urllib.parse import quote_plus, unquote")],
     '''
import os
from recap.storage.registry import RegistryStorage
from recap.types import BoolType
s = RegistryStorage("file://" + os.environ["SCRATCH"] + "/reg")
s.put("a b", BoolType())
assert s.ls() == ["a b"], s.ls()
''')

seed("registry-version-zero", "C51", "a version zero next to later versions",
     "asking for version 0 gives the latest version",
     [("recap/storage/registry.py", """        if version is None:
            versions = self.versions(name)""", """        if not version:
            versions = self.versions(name)""")],
     '''
import os
from recap.storage.registry import RegistryStorage
from recap.types import BoolType, NullType
s = RegistryStorage("file://" + os.environ["SCRATCH"] + "/reg")
s.put("a", BoolType(), 0)
s.put("a", NullType(), 1)
assert s.get("a", 0) == (BoolType(), 0), s.get("a", 0)
''')

seed("gateway-empty-listing", "C55", "a listing of something that has no children",
     "an empty listing is answered with 404",
     [("recap/server/gateway.py", "    if children is not None:\n", "    if children:\n")],
     '''
from unittest.mock import patch
from fastapi.testclient import TestClient
from recap.server.app import app
with patch("recap.commands.ls", return_value=[]):
    r = TestClient(app).get("/gateway/ls/sqlite:///x.db")
assert r.status_code == 200 and r.json() == [], (r.status_code, r.text)
''')

seed("mysql-leaked-cursor-error", "C32", "a listing or schema that fails after the connection was made",
     "the connection is closed only when nothing fails",
     [("recap/clients/mysql.py", """        with mysql.connector.connect(**kwargs) as client:
            yield MysqlClient(client)  # type: ignore
""", """        client = mysql.connector.connect(**kwargs)
        yield MysqlClient(client)  # type: ignore
        client.close()
""")],
     '''
import sys, types
closed = []
class Conn:
    def cursor(self): raise RuntimeError("lost")
    def close(self): closed.append(1)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
m, c, k = types.ModuleType("mysql"), types.ModuleType("mysql.connector"), types.ModuleType("mysql.connector.constants")
c.connect = lambda **kw: Conn()
k.DEFAULT_CONFIGURATION = {"host": 1, "port": 1, "user": 1, "password": 1, "database": 1}
m.connector, c.constants = c, k
sys.modules.update({"mysql": m, "mysql.connector": c, "mysql.connector.constants": k})
from recap.clients import create_client
try:
    with create_client("mysql://u:p@h:1/db") as cl:
        cl.ls("db")
    raise SystemExit("no error")
except RuntimeError:
    pass
assert closed == [1], closed
''')

seed("settings-first-match-credentials", "C41", "two configured URLs of one host and path prefix with different ports",
     "a URL on another port gets the credentials of a configured URL",
     [("recap/settings.py", "and unsafe_url_split.port == url_split.port", "and (unsafe_url_split.port or url_split.port) == url_split.port")],
     '''
from pydantic import AnyUrl
from recap.settings import RecapSettings
s = RecapSettings(urls=[AnyUrl("http+csr://user:secret@h/x")])
try:
    r = s.unsafe_url("http+csr://h:9/x")
except ValueError:
    r = "refused"
assert "secret" not in r, r
''')

seed("hive-two-lists", "C21", "a union with two lists of different elements",
     "a union keeps only the first of its lists",
     [("recap/converters/hive_metastore.py", "[t for t in flattened.types if t not in flattened_types]", "[t for t in flattened.types if t not in flattened_types and not (isinstance(t, ListType) and ListType in map(type, flattened_types))]")],
     """
from pymetastore.htypes import *
from pymetastore.metastore import HColumn
from recap.converters.hive_metastore import HiveMetastoreConverter
p = lambda c: HListType(HPrimitiveType(c))
t = HiveMetastoreConverter()._parse_schema(HColumn("a", HUnionType([p(PrimitiveCategory.INT), p(PrimitiveCategory.LONG)])))
assert len(t.types) == 3, t
""")

seed("pg-bit-array", "C17", "an array of bit strings",
     "the elements of an array of bit strings are an eighth as long as a field can be",
     [("recap/converters/postgresql.py", '"CHARACTER_MAXIMUM_LENGTH": MAX_FIELD_SIZE * 8', '"CHARACTER_MAXIMUM_LENGTH": MAX_FIELD_SIZE')],
     """
from recap.converters.postgresql import PostgresqlConverter
c = dict(COLUMN_NAME="a", DATA_TYPE="ARRAY", IS_NULLABLE="NO", COLUMN_DEFAULT=None, CHARACTER_OCTET_LENGTH=None, CHARACTER_MAXIMUM_LENGTH=None, UDT_NAME="_bit", ATTNDIMS=1, ENUM_VALUES=None)
t = PostgresqlConverter().to_recap([c]).fields[0]
assert t.values.types[0].bytes_ == 1073741824, t
""")
