"""The properties.  `python3 tools/catalogue.py` rewrites properties.jsonl and MANIFEST.json."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

T = "recap/types.py"
CV = "recap/converters/"
CL = "recap/clients/"


def p(id, title, statement, over, text, why, files, mech, level_note, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=level_note, observe=observe)


GRID = "every shape of the enumerated grid (leaf kind x attributes x surrounding container), every value of each leaf being an atom that stands for all values of its kind"

PROPERTIES = [
    p("C01", "Types survive a round trip through their dictionary form",
      "Turning any type into its dictionary form and reading that form back gives an equal type. Every attribute at every level survives, whichever output options (clean or not, aliases on or off) were used. Shortening a dictionary form keeps the type that it describes.",
      ["inputs"], "all types, at any nesting, and all output options", "Tests sample one flat type per kind; the loss of an attribute shows only in particular combinations of container, attribute and option.",
      [T], [("to_dict / from_dict", T), ("clean_dict and alias substitution", T)], GRID),
    p("C02", "Reading a type dictionary gives what it describes or is refused",
      "A valid dictionary form, including the short forms for optional fields, unions given as lists and names of types, is read as exactly the type it describes. A dictionary that lacks a required attribute, or has one outside its limits, is refused with an error and never read as some other type.",
      ["inputs"], "all dictionaries, at any nesting", "Tests sample values inside and one outside each limit; limits and nesting combine without bound.",
      [T], [("from_dict", T), ("constructors of the types", T)], GRID + "; numeric limits are compared at every boundary value"),
    p("C03", "Equality of types compares every attribute at every level",
      "Two types are equal exactly when they are of the same kind and all of their attributes, documentation, alias, logical type and extra attributes included, are equal at every level. A type is never equal to something that is not a type.",
      ["inputs"], "all pairs of types", "Tests compare a few pairs; an attribute left out of the comparison is invisible unless a pair differs only there.",
      [T], [("__eq__ of the types", T)], "all pairs differing in one attribute, at top level and nested"),
    p("C04", "An alias names one definition for good",
      "Once an alias is registered, looking it up gives the registered definition whatever is done later to the type it was made from or to types obtained by resolving references. An alias that is registered already, built in, or not dotted is refused, and the built-in aliases keep their documented definitions. Registries are independent of each other.",
      ["histories", "inputs"], "all sequences of registrations and lookups", "Tests register one type and look it up once.",
      [T], [("register_alias / from_alias", T)], "all built-ins and all leaf kinds, for the histories register-mutate-lookup, register-register, lookup-mutate-lookup"),
    p("C05", "Making a type nullable keeps everything else about it",
      "Making a type nullable gives a union of null and that type with a default; documentation, default and field name belong to the union, every other attribute stays with the type. A type that is nullable already stays as it is apart from gaining a default, and whether a type is nullable or optional is answered from its structure alone.",
      ["inputs"], "all types", "Tests cover a few leaf types; attributes that are dropped show only on types that have them.",
      [T], [("make_nullable, is_nullable, is_optional", T)], GRID),
    p("C06", "Converting or inspecting a type never modifies it",
      "Serialising a type, comparing it, making it nullable, resolving references, or writing it in any schema language leaves the type and all of its parts unchanged. Reading a type from a dictionary leaves the dictionary unchanged.",
      ["inputs", "histories"], "all operations on all types", "Tests use each object once and drop it, so a modified input goes unnoticed.",
      [T, CV + "avro.py", CV + "json_schema.py", CV + "protobuf.py"], [("to_dict, from_dict, make_nullable, resolve", T), ("from_recap of the writers", CV)], GRID + "; object graphs are compared before and after"),
    p("C07", "A reference stands for its definition",
      "Resolving a reference gives a copy of the definition of its alias, with the attributes set on the reference itself taking precedence. The definition and the reference are not changed by it, references made before the definition exists and self references work, and an unknown alias is an error.",
      ["inputs", "histories"], "all definitions, references and orders of registration", "Tests resolve one reference with one attribute.",
      [T], [("resolve", T), ("from_alias", T)], "all leaf kinds x all override sets, all built-ins, early and recursive references"),
    p("C08", "Converting one schema does not depend on others converted before",
      "A schema read or written by a converter of its own, in Avro, JSON schema, Protobuf or Recap's own form, gives what it gives in a fresh process, whatever other converters read or wrote before and whatever they refused. A converter object may read schemas of other names, or write any types, one after the other with the same guarantee. What was read or written before does not change.",
      ["histories"], "all sequences of schemas read or written in one process", "Tests use a new converter for one schema each, with names that do not meet again.",
      [CV + "avro.py", CV + "json_schema.py", CV + "protobuf.py", T], [("to_recap, from_recap, registries and namespaces", CV), ("from_dict, to_dict", T)], "every ordered pair of 12 Avro, 8 JSON, 11 Protobuf and 8 Recap schemas that define the same names differently, and of 9 types to write; each compared with newly loaded modules", ["types and schemas returned, and what references lead to"]),
    p("C09", "A type is written by the alias that stands for it",
      "With aliases, the dictionary form of a type names the built-in alias, or the alias of the registry in use, wherever a part is defined exactly as that alias, at every depth and in both the short and the full form. A part that has more to say than the alias, or defines an alias itself, keeps its own definition. Without aliases none is used, and nothing is registered by writing.",
      ["inputs"], "all types and registries", "Tests replace one integer at the top; a level that is not reached, or is compared with the wrong registry, goes unnoticed.",
      [T], [("to_dict and alias_dict", T)], "all built-in aliases and 7 registered definitions x every way to nest them; near misses by every attribute"),
    p("C10", "Avro schemas are read faithfully",
      "The type read from an Avro record schema has every field in order, with the type, size, documentation and default that the schema gives it. Named types get their full name by Avro's namespace rules and are registered under it, and a reference to one leads to its definition. A schema that is not a record or lacks required parts is refused.",
      ["inputs"], "all Avro record schemas", "Tests sample one schema per feature; name scoping, references and attributes interact.",
      [CV + "avro.py"], [("to_recap and _parse", CV + "avro.py")], "26 Avro types x attributes x 4 ways to give a namespace; names, sizes and defaults are atoms"),
    p("C11", "Avro schemas are written faithfully",
      "The Avro schema written for a type describes the same values: integer and float types wide enough (integers too wide for Avro as decimals of the digits that always fit), fixed or variable bytes, logical types with their unit, precision and scale, and containers, names, documentation, defaults and order kept. A type that Avro cannot express is refused.",
      ["inputs"], "all types", "Tests sample single widths and units; limits between Avro types lie at widths the tests do not visit.",
      [CV + "avro.py"], [("from_recap", CV + "avro.py")], GRID + "; widths and lengths are ranges, compared at every boundary"),
    p("C12", "JSON schemas are read faithfully",
      "The type read from a JSON schema of an object has every property in order with its type, format, description and default, and a property is optional exactly when it is not required. Identifiers become aliases, and references to identified schemas, in the document or retrieved, lead to them. A schema of an unsupported type is refused.",
      ["inputs"], "all JSON schemas of objects", "Tests sample single properties; the presence of required, default and description combines.",
      [CV + "json_schema.py"], [("to_recap and _parse", CV + "json_schema.py")], "21 property types x attributes x 5 forms of required; names and values are atoms"),
    p("C13", "JSON schemas are written faithfully",
      "The JSON schema written for a type has its properties in order, requires exactly those that are not optional, and keeps item types, formats, descriptions and defaults at every level. Every reference in it leads to a definition in the same document which describes the type of that alias.",
      ["inputs"], "all types", "Tests sample flat types; definitions and references interact across nesting and order.",
      [CV + "json_schema.py"], [("from_recap", CV + "json_schema.py")], GRID),
    p("C14", "Protobuf schemas are read faithfully",
      "The type read from a Protobuf file is its first message with every field in order: scalar types by width and sign, maps by key and value, one-ofs as unions of their fields, repeated fields as lists. Only required fields are not nullable. Messages and enums are found by short and by full name wherever they are declared, are written out at their first use and referred to afterwards, also recursively.",
      ["inputs"], "all Protobuf files", "Tests sample single messages; declaration order, nesting and repeated use combine.",
      [CV + "protobuf.py"], [("to_recap and its parsing", CV + "protobuf.py")], "18 field types x 4 cardinalities, maps, one-ofs, and messages used twice in 5 places x 3 declaration orders"),
    p("C15", "Protobuf schemas are written faithfully",
      "In the Protobuf file written for a type every struct and enum is declared exactly once, in the scope that its alias gives, with its fields in order, of the right scalar type by width and sign. Lists are repeated, nullable fields optional, and the field numbers within a message are distinct. Types that Protobuf cannot express are refused.",
      ["inputs"], "all types", "Tests sample single messages; number and name clashes need particular combinations of fields.",
      [CV + "protobuf.py"], [("from_recap and its writing", CV + "protobuf.py")], GRID),
    p("C16", "MySQL columns keep their type, length, precision and sign",
      "A MySQL column is read as the type that holds exactly its values: integers by width and sign, decimals with precision and scale, character and binary columns with their length and whether it is fixed, times with their unit, enums and sets as text of their length. A type that is not known is refused.",
      ["inputs"], "all columns MySQL's information schema can describe", "Tests read a handful of columns; types have prefixes of one another and parameters that combine.",
      [CV + "mysql.py", CV + "dbapi.py"], [("_parse_type", CV + "mysql.py"), ("_get_time_unit, _parse_parameters", CV + "dbapi.py")], "31 column types with atoms for lengths, precisions and scales; units at every boundary of the precision"),
    p("C17", "PostgreSQL columns and arrays keep their type and length",
      "A PostgreSQL column is read as the type that holds exactly its values: integers and floats by width, character, bit and decimal columns with their length, precision and scale, times with their unit, enums with their symbols. Arrays are lists of their element type, nested as declared when dimensions are enforced and of any depth otherwise, whatever the column is called; a type that is not known is refused.",
      ["inputs"], "all columns PostgreSQL's catalogue can describe", "Tests read a handful of columns; types have prefixes of one another, and array names and dimensions vary without bound.",
      [CV + "postgresql.py", CV + "dbapi.py"], [("_parse_type", CV + "postgresql.py"), ("_create_n_dimension_list", CV + "postgresql.py")], "all supported column types, arrays of 12 element types x up to 3 dimensions, and unusual column names"),
    p("C18", "Snowflake columns keep their type, length and precision",
      "A Snowflake column is read as the type that holds exactly its values: numbers with precision and scale, character and binary columns with their length, times and timestamps with their unit. A type that is not known is refused.",
      ["inputs"], "all columns Snowflake's information schema can describe", "Tests read a handful of columns; types have prefixes of one another and parameters that combine.",
      [CV + "snowflake.py", CV + "dbapi.py"], [("_parse_type", CV + "snowflake.py"), ("_get_time_unit", CV + "dbapi.py")], "42 column types with atoms for lengths, precisions and scales; units at every boundary of the precision"),
    p("C19", "SQLite columns get the type of their declared affinity",
      "A SQLite column is read by the affinity rules of SQLite in their order: INT, then CHAR, CLOB or TEXT, then BLOB or no type, then REAL, FLOA or DOUB, else numeric. A declared length, precision or scale is kept, whatever the case, spacing or extra words of the declaration.",
      ["inputs"], "all declared types, which are free text in SQLite", "Tests read a handful of declarations; any text is a valid declared type and the rules overlap.",
      [CV + "sqlite.py", CL + "sqlite.py"], [("_parse_type", CV + "sqlite.py"), ("reading lengths from the declaration", CL + "sqlite.py")], "586 declarations: all ordered pairs of affinity keywords, letter cases and parameter forms"),
    p("C20", "BigQuery fields are read faithfully at every nesting",
      "A BigQuery field is read with the type, length, precision and scale that its schema gives, or with BigQuery's own limits where the schema gives none. Repeated fields are lists, nullable fields nullable, records structs of their fields in order, and name, description and default are kept at every nesting.",
      ["inputs"], "all BigQuery schemas", "Tests read one field per type; modes, defaults and nesting combine.",
      [CV + "bigquery.py"], [("to_recap, _parse_field", CV + "bigquery.py")], "20 field types x 4 modes x attributes, as a column and inside nested records"),
    p("C21", "Hive tables are read faithfully at every nesting",
      "A Hive table is read as a struct of its columns, in order, with names and comments. Integers and floats have their width, decimals and characters their parameters, lists, maps, structs and unions their parts, and every column and every nested value may be null.",
      ["inputs"], "all Hive tables", "Tests read one column per type; types nest without bound.",
      [CV + "hive_metastore.py"], [("to_recap, _parse_schema", CV + "hive_metastore.py")], "17 leaf types x 17 surrounding types, parameters are atoms"),
    p("C22", "Hive statistics land on their own column and change nothing else",
      "With statistics included, each column's statistics (low and high values, counts, lengths) are attached to the field of that column under their own names, in whatever order or number the metastore lists them. Everything else about the table reads as it does without statistics.",
      ["inputs"], "all tables and lists of statistics", "Tests read one table whose statistics are listed in column order.",
      [CL + "hive_metastore.py", CV + "hive_metastore.py"], [("schema with include_stats", CL + "hive_metastore.py"), ("statistics in to_recap", CV + "hive_metastore.py")], "7 kinds of statistics x 3 lists (only this column's, with a missing one, reversed), each member present or not"),
    p("C23", "Every column becomes one field, with its name, nullability and default",
      "The struct read from a database table has exactly one field per column, in the table's order, with the column's name. A field is nullable exactly when its column is, and has the column's default, or a null default when the column is nullable and has none.",
      ["inputs"], "all tables", "Tests read one table per database; each type, default and nullability combine.",
      [CV + "dbapi.py", CV + "mysql.py", CV + "postgresql.py", CV + "snowflake.py", CV + "sqlite.py"], [("to_recap", CV + "dbapi.py"), ("make_nullable", T)], "151 combinations of database and column type x nullable or not x default or not, between two other columns"),
    p("C24", "Reading a table does not depend on tables read before",
      "What a converter returns for a table is the same whatever the same converter read before, also if that failed, and does not change when it reads another table afterwards.",
      ["histories"], "all sequences of tables read with one converter", "Tests make a new converter for each table.",
      [CV + "dbapi.py", CV + "mysql.py", CV + "postgresql.py", CV + "snowflake.py", CV + "sqlite.py", CV + "bigquery.py"], [("to_recap and state kept on the converter", CV)], "152 pairs of tables per converter: the same twice, another one before, a refused one before"),
    p("C30", "Database object names never become part of a statement",
      "Every statement that Recap sends to a database has a text that Recap alone determines. Names of databases, schemas, tables and columns, from users or from another database object, are passed as parameters only.",
      ["inputs"], "all names, of any characters", "Tests use well-behaved names; an injection needs a name with a quote in one particular place.",
      [CL + "dbapi.py", CL + "mysql.py", CL + "postgresql.py", CL + "snowflake.py", CL + "sqlite.py"], [("statements of the clients", CL)], "both operations of 4 SQL clients; every name is an atom whose presence in the statement's text is the violation", ["text and parameters of every statement executed"]),
    p("C31", "Clients list and describe exactly the object they are asked for",
      "A listing has the children of the named object, each once, and nothing else, as names that can be used for the next listing. The schema of a table has that table's columns only, in their order, whatever tables of similar names exist in the same or other schemas and databases.",
      ["inputs"], "all contents of databases, registries, metastores and directories", "Tests run against stubs, or need databases that are not there; the database used has one table.",
      [CL + "dbapi.py", CL + "mysql.py", CL + "postgresql.py", CL + "snowflake.py", CL + "sqlite.py", CL + "bigquery.py", CL + "hive_metastore.py", CL + "confluent_registry.py", CL + "fs.py"], [("ls and schema of the clients", CL)], "8 clients x listings and schemas x 4 ways in which names can clash; statements are evaluated over symbolic catalogue tables", ["what ls and schema return"]),
    p("C32", "Connections are closed whatever happens",
      "Whatever a command connects to is closed when the command ends, also when listing or reading fails at any call to the database. It is not used after that, and the error reaches the caller.",
      ["fault_sequences"], "all points at which a call to a database can fail", "Tests use stubs that do not fail.",
      [CL + "__init__.py", CL + "dbapi.py", CL + "mysql.py", CL + "postgresql.py", CL + "snowflake.py", CL + "sqlite.py", CL + "hive_metastore.py", "recap/commands.py"], [("create_client", CL + "__init__.py"), ("create of the clients", CL)], "8 clients x 2 operations, normally and with a failure at each call after the connection", ["connects, calls, closes and errors"]),
    p("C33", "A URL leads to the client and the object that it names",
      "Listing or reading a URL uses the client of its scheme and asks it for the object that the URL's path names, at every depth of the path. A scheme that has no client, and a database path that is too long or too short to name an object of the kind, are refused.",
      ["inputs"], "all URLs", "Tests cover parsing of one URL per client, not what is then asked for.",
      [CL + "__init__.py", CL], [("parse_url, _url_to_dict", CL + "__init__.py"), ("parse of the clients", CL)], "9 kinds of URLs x every depth of their paths, and paths too long or too short; parts are atoms", ["the client created and the arguments it is called with"]),
    p("C34", "Connections go where the URL says, with its credentials",
      "A connection is made to the host, port and database of the URL, with its user and password, each as the URL gives it and percent-decoded, or without those parts that the URL does not have. Options in the query are passed on and never replace a part that the URL states.",
      ["inputs"], "all URLs", "Tests replace the connection by a stub and use one URL.",
      [CL + "__init__.py", CL + "mysql.py", CL + "postgresql.py", CL + "snowflake.py", CL + "hive_metastore.py", CL + "confluent_registry.py"], [("_url_to_dict", CL + "__init__.py"), ("create of the clients", CL)], "5 databases x presence of each part of the URL x names of query parameters that equal parts of the URL", ["arguments of the connect calls"]),
    p("C35", "Schemas are read by the reader of their own format",
      "A schema from a schema registry is read as the format that the registry states for it, and a file by its suffix in any letter case. Both give the type that the text describes in that format; any other format is refused.",
      ["inputs"], "all schemas and files", "Tests use one file per suffix and stub the registry.",
      [CL + "confluent_registry.py", CL + "fs.py"], [("schema of the clients", CL)], "3 formats x registry and file suffixes of every letter case", ["what schema returns"]),
    p("C40", "Listed URLs never show credentials",
      "The list of configured URLs has each of them in order, without user and password and otherwise unchanged but for a trailing slash. No part of any credential is in it, whatever characters they have.",
      ["inputs"], "all configured URLs", "Tests list a few URLs; credentials may hold any delimiter.",
      ["recap/settings.py", "recap/commands.py"], [("safe_urls", "recap/settings.py"), ("ls", "recap/commands.py")], "7 forms of credentials x 4 forms of hosts x ports, paths, queries and fragments"),
    p("C41", "Only configured URLs are accepted, and get their own credentials",
      "In strict mode, which is the default, a URL is accepted exactly if some configured URL has its scheme, host and port and a path that it equals or lies beneath, and is refused otherwise. An accepted URL gets the credentials and options of that configured URL and keeps its own path, query and fragment; without strict mode, other URLs are passed on as they are.",
      ["inputs"], "all pairs of configured and given URLs", "Tests sample a few pairs; paths that merely start alike or climb with dots need particular inputs.",
      ["recap/settings.py"], [("unsafe_url", "recap/settings.py")], "18 relations of paths x 5 relations of scheme, host and port x credentials, queries and fragments"),
    p("C42", "The gateway reaches configured systems only",
      "A request to the gateway, or a command or the parsing of a URL with its defaults, for a URL that is not configured is refused and nothing is connected to, opened or read for it. For a configured URL the connection uses the configured credentials, whatever credentials the request carries, and never those of another configured URL.",
      ["inputs", "configurations"], "all configurations and all requested URLs", "Tests replace the commands by stubs and never see what is connected to.",
      ["recap/server/gateway.py", "recap/commands.py", CL + "__init__.py", "recap/settings.py"], [("ls and schema of the gateway", "recap/server/gateway.py"), ("create_client, parse_url", CL + "__init__.py"), ("unsafe_url", "recap/settings.py")], "7 kinds of systems x listing or schema x gateway or command x configured or not, and local files; every part of every URL is an atom", ["connections, files opened and answers"]),
    p("C43", "A request does not depend on the requests before it",
      "A listing or a schema, by command or through the gateway, is answered from what its source holds at the time of the request, and connects as its own URL and the configuration say. It gives what it gives as the only request of a process, whatever was asked for, changed or refused before, and answers given before do not change.",
      ["histories", "inputs"], "all sequences of requests, and all changes of the sources between them", "Tests ask once, of stubs that do not change.",
      ["recap/commands.py", CL + "__init__.py", "recap/server/gateway.py"], [("ls, schema", "recap/commands.py"), ("create_client, parse_url", CL + "__init__.py"), ("ls and schema of the gateway", "recap/server/gateway.py")], "pairs and triples of requests to 7 kinds of systems and to files: the same after a change, other credentials, another operation, another system, configured or not", ["answers and connections of each request"]),
    p("C44", "The configuration comes from environment, .env file and secrets",
      "The URLs, and the storage of the registry with its arguments, are those of the RECAP_* variables of the environment, which win over a .env file, which wins over the directory of secrets. Without them nothing is configured, and the registry lies in the directory schemas of RECAP_HOME, or of .recap in the user's home directory if RECAP_HOME is not set or empty. The home directory is created if it does not exist, and it is not an error if it does.",
      ["configurations"], "all settings of the environment, of .env files and of directories of secrets", "Tests run in one environment, read once per process.",
      ["recap/settings.py", "recap/server/registry.py"], [("HOME_PATH, mkdirs, RecapSettings", "recap/settings.py"), ("get_storage", "recap/server/registry.py")], "each setting from each of the three places and from two at once; paths, URLs and arguments are atoms", ["URLs listed and connected to, the storage opened, directories made"]),
    p("C50", "Each registry name keeps to itself",
      "What is stored under a name in the registry is found and listed under exactly that name, whatever characters the name has, and never under another name. It lies beneath the registry's root, and the empty name is refused.",
      ["inputs"], "all names and pairs of names", "Tests use well-behaved names; a clash or an escape needs names with particular characters.",
      ["recap/storage/registry.py"], [("_quote_name, ls, put, get", "recap/storage/registry.py")], "a name of unknown text and 33 names with special characters, alone and in pairs, over 3 roots; the file system is a map from abstract paths to contents", ["paths read and written"]),
    p("C51", "Registry versions count up and are kept apart",
      "Storing a type without a version gives it the number after the greatest existing one, starting at 1. Versions are listed in ascending numeric order, the latest is the greatest, each is found under its own number only, and storing one leaves all others as they were; an unknown name or version is reported as absent.",
      ["histories", "inputs"], "all histories of stored versions, on all kinds of file systems", "Tests store one or two versions; order by text and by number agree below ten.",
      ["recap/storage/registry.py"], [("put, get, versions, latest", "recap/storage/registry.py")], "14 histories with gaps, two-digit numbers and explicit versions; listings in every order, plain or detailed", ["answers and file contents after each step"]),
    p("C52", "The registry gives back the type that was stored",
      "Reading a stored version gives a type equal to the one that was stored, with every attribute at every level. A type that cannot be written, or a failure of the storage before the file is opened, leaves no version behind, and the error reaches the caller.",
      ["inputs", "fault_sequences"], "all types, and failures of every call to the storage", "Tests store one flat type, and their storage never fails.",
      ["recap/storage/registry.py", T], [("put, get", "recap/storage/registry.py"), ("to_dict, from_dict", T)], "the grid of C01 through the storage, types that JSON cannot express, and a failure at each storage call"),
    p("C53", "The registry's HTTP interface answers from the storage",
      "Each request reads or writes exactly the name and version in its path, in the storage that the settings configure, and answers with the stored type and its version. What is not there is answered with 404, a body that is not a type with 400, another content type with 415, an existing version with 409, and a refused request changes nothing.",
      ["inputs"], "all requests and contents of the registry", "Tests send a few well-formed requests.",
      ["recap/server/registry.py", "recap/storage/registry.py", "recap/settings.py"], [("routes", "recap/server/registry.py"), ("registry_storage_url", "recap/settings.py")], "6 routes x existing, missing and refused; names, versions and bodies are atoms", ["status, body and the storage after each request"]),
    p("C54", "Concurrent registry requests never overwrite each other",
      "When two requests to one server process write under the same name at the same time, no acknowledged version is overwritten or lost. The two are never given the same version, and one that asks for a version which the other took first is refused.",
      ["schedules"], "all interleavings of two writing requests in a server process", "Tests send one request at a time.",
      ["recap/server/registry.py", "recap/storage/registry.py"], [("post, put", "recap/server/registry.py"), ("put", "recap/storage/registry.py")], "both kinds of write against each other, the rival running at every await and, for work handed to threads, at every storage call", ["storage contents and answers under each interleaving"]),
    p("C55", "The gateway answers in the format that was asked for",
      "A schema is answered in the format that the request's content type, or the command's format, names, in Recap's own if there is none, and describes the type that was read. An unsupported format is refused with 415 before anything is connected to, and listings are complete and in order, an empty one included.",
      ["inputs"], "all types, content types and listings", "Tests use one struct and stub what is read.",
      ["recap/server/gateway.py", "recap/commands.py"], [("schema", "recap/server/gateway.py"), ("schema, ls", "recap/commands.py")], "10 content types, 4 formats, unknown ones as atoms; the type is that of a stand-in reader", ["status, content type and body"]),
    p("C56", "The command line shows exactly what was found",
      "The command line lists and reads any URL, configured or not, with the configured credentials if there are any and the URL's own otherwise. It prints the complete result unaltered, as JSON or, for Protobuf, as the text of the file, in the format that was asked for, Recap's own by default; serve starts the server on the given host and port.",
      ["inputs", "configurations"], "all configurations, URLs and schemas", "Tests compare the output of a few short schemas.",
      ["recap/cli.py", "recap/commands.py", CL + "__init__.py"], [("ls, schema, serve", "recap/cli.py")], "7 kinds of systems x listing or schema x configured or not, all formats", ["everything handed to the terminal"]),
    p("C57", "Each part works with the packages of its own extra",
      "Types and the Avro and SQL converters can be imported with the standard library alone, and every other part with the packages of its own extra. Listing or reading a URL of one kind, a file of one format, or writing one format never needs the packages of another.",
      ["configurations"], "all sets of installed packages", "Tests run with every package installed.",
      ["recap/clients/__init__.py", "recap/commands.py", CL, CV], [("imports of every module", "recap/"), ("create_client", CL + "__init__.py")], "26 modules, 7 kinds of URLs, 3 file and 4 output formats, each with nothing but its own packages installed", ["imports reached"]),
    p("N01", "A crash while a version is stored never damages the registry",
      "If the process dies while a version is being written, the version is afterwards either complete or absent, and all others are readable.",
      ["crash_points"], "all crash points of a write, on every file system that fsspec offers", "Tests never crash a write.",
      ["recap/storage/registry.py"], [("put", "recap/storage/registry.py")], ""),
    p("N02", "Server processes that share a storage never take the same version",
      "Two server processes with the same registry storage never give the same version to two types.",
      ["schedules"], "all interleavings of storage calls of two processes", "Tests run one process.",
      ["recap/storage/registry.py"], [("put", "recap/storage/registry.py")], ""),
]

NA = [
    {"property": "N01", "reason": "Whether a half-written file becomes visible is decided inside the file system behind fsspec (object stores publish on close, a local disk at once, with buffers of unknown size), not by recap's source; put() writes in place, and no static argument over recap bounds what the storage has made durable when the process dies."},
    {"property": "N02", "reason": "Allocation is a read of a listing followed by a write; excluding another process needs an exclusive create, which fsspec does not offer for all file systems, so the answer lies in the storage and in scheduling between processes, neither of which is in recap's source. Within one process the property is C54."},
]


def main():
    from sa.props import PROPS

    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in PROPERTIES:
            if q["id"] not in PROPS and not any(n["property"] == q["id"] for n in NA):
                print("not yet:", q["id"])
                continue
            assert len(q["title"]) <= 80, q["id"]
            assert q["statement"].count(". ") <= 2, q["id"]
            a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]]}
            if q["observe"]:
                a["observe_at"] = q["observe"]
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"], "anchors": a}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 -c 'import ast, json'",
        "checks": [
            {
                "property": q["id"],
                "quick_cmd": f"python3 check.py {q['id']} quick",
                "thorough_cmd": f"python3 check.py {q['id']} thorough",
                "technique": "static analysis: trace-partitioned abstract interpretation of the syntax trees",
                "level": "other",
                "level_note": "No execution, no solver: the source is parsed and interpreted over abstract values. Covered: " + q["note"] + ". Paths the analysis cannot follow are counted as undecided, never as violations.",
                "evidence_file": f"evidence/{q['id']}.json",
            }
            for q in PROPERTIES
            if q["id"] in PROPS
        ],
        "not_applicable": NA,
        "notes": "See DESIGN.md. check.py reads /repo (or $RECAP_ROOT) and needs nothing but the Python standard library.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
