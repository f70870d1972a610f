#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/properties.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=observe or [],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

O="format/octopus/"
p("C01","Documented commands and options exist and reach the behaviour they name",
"Every command of the user guide is accepted under its documented name and performs the conversion it names, and every option documented for it is accepted under its documented long name, short alias and environment variable. No command reads an option it does not accept, and each documented option's value reaches the behaviour it documents.",
["configurations","inputs"],"every command x every documented option, whatever the values and inputs",
"No existing test goes through the command line; the option tables and their wiring are never executed.",
["main.go","docs/"]+["format/%s/cli.go"%f for f in "dbml diff gorm graphql jpa liquibase mysql octopus ojson plantuml protobuf quickdbd sqlalchemy staruml xlsx".split()],
[("command table","main.go"),("Action/Flags pairs","format/*/cli.go")],observe=["process arguments, help output, produced file"])
p("C02","A failed step is always reported as a failed command",
"If reading, parsing, validating, rendering or writing fails at any step, the command ends with an error and a non-zero exit status. It never reports success for a conversion of which a step failed.",
["fault_sequences","inputs"],"every fallible operation on every path of every command",
"Tests run with valid in-memory inputs; no fault is injected at any I/O, parse or render step.",
["main.go",O+"io.go","util/io.go","format/*/cli.go"],[("error propagation","every function that receives an error result")],observe=["exit status"])
p("C04","Same input and options give byte-identical output",
"Running a command twice on the same input with the same options produces the same files with the same bytes. In particular the order of tables, columns, imports, annotations, associations and changes never depends on hash-table iteration order.",
["inputs","schedules"],"every input; every iteration order the runtime may pick for a hash table",
"Go randomises map iteration per run; a test sees one order and the small fixtures have at most one entry per map.",
["util/set.go","util/multimap.go","format/common/annotation.go","format/diff/diff.go","format/gorm/gorm.go","format/xlsx/importer.go"],[("sorted views of sets and maps","util/set.go, util/multimap.go")],observe=["output files"])
p("C05","Only the requested output is written, and only after the inputs loaded",
"A command creates or changes files only at the path given by its output option (whose missing parent directory may be created) or, for generators documented to write a directory, below it, provided the names in the schema and the packages given as options are single path components. It writes nothing before all its inputs have been read and accepted.",
["inputs","configurations","fault_sequences"],"every command, every option value, every input failure",
"Tests render to memory buffers; file placement and write ordering are never observed.",
["util/io.go","format/*/cli.go","format/jpa/kotlin-gen.go","format/sqlalchemy/generator.go","format/gorm/generator.go"],[("output path construction","format/*/cli.go, generators"),("MkdirPackage","util/io.go")],observe=["file system"])
p("C06","Octopus documents keep every documented attribute under its documented key",
"Reading an octopus document and writing it back preserves every attribute of the documented format - schema, table, column, reference and index attributes - under its documented key, except for the documented type normalisation and correction. Attributes left at their default are omitted and read back as the default.",
["inputs"],"every octopus document and every attribute value",
"No test reads or writes an octopus document; the key table is only exercised by hand.",
[O+"table.go",O+"column.go","docs/octopus-format.md"],[("document mapping",O+"table.go, "+O+"column.go")],observe=["octopus JSON files"])
p("C07","Type names are normalised to one canonical vocabulary",
"Every documented alias type name, in any letter case, denotes exactly its canonical type, and canonical names denote themselves. A schema that uses an alias is processed by every command exactly like the same schema with the canonical name.",
["inputs"],"every alias, every letter case, every command that loads a schema",
"No test loads an alias type through a command.",
[O+"column.go",O+"types.go",O+"table.go"],[("alias table",O+"column.go"),("load-time normalisation",O+"io.go")])
p("C08","Invalid schemas are rejected, valid ones accepted, at load time",
"A command that loads an octopus document accepts it exactly when every column has a name and a known type, every set column has 1 to 64 values and every enum column at least one value. Auto-increment on a column whose type is not an integer is switched off rather than carried into the output; an integer column keeps it.",
["inputs"],"every octopus document; every type; every number of values",
"No test loads an invalid document.",
[O+"column.go",O+"table.go",O+"io.go"],[("validation",O+"column.go, "+O+"table.go"),("load",O+"io.go")])
p("C09","The groups option selects exactly the listed groups",
"With a comma separated groups option every export, generate and diff command processes exactly the tables whose group equals one of the listed names; without it every table is processed. Selection never drops, duplicates or merges a selected table.",
["inputs","configurations"],"every schema, every groups value, every command with the option",
"No test sets a group filter.",
[O+"filter.go"]+["format/%s"%f for f in ("dbml/exporter.go","quickdbd/exporter.go","mysql/exporter.go","xlsx/exporter.go","plantuml/generator.go","protobuf/generator.go","graphql/generator.go","gorm/generator.go","jpa/kotlin-gen.go","sqlalchemy/generator.go","liquibase/generator.go","diff/diff.go","liquibase/diff.go")],[("table filter",O+"filter.go")])
p("C10","Every table and column appears exactly once, in the defined order",
"Each selected table of the schema appears exactly once in the output, tables ordered by group and then by name, and each of its columns appears exactly once, in declaration order, with nothing carried over from other tables.",
["inputs"],"every schema, every number of tables and columns, every exporter and generator",
"Fixtures have one or two tables and are already sorted; tests compare a few fixed outputs.",
[O+"table.go","format/*/exporter.go","format/*/generator.go"],[("table ordering",O+"table.go"),("table/column loops","exporters and generators")])

p("M01","MySQL export defines each column with its type and attributes",
"For every canonical type the exported DDL declares the column with the MySQL type of the same meaning, carrying size and scale where MySQL accepts them and all permitted values of enum and set types in order. NOT NULL, AUTO_INCREMENT, DEFAULT, ON UPDATE and COMMENT clauses appear exactly when the column has the attribute, with its value, function values as function calls and text values quoted.",
["inputs"],"every column attribute combination and every canonical type",
"Tests compare one fixed table per type with size 0 and no attribute combinations.",
["format/mysql/exporter.go"],[("type table","ToMysqlColumnType in format/mysql/exporter.go"),("constraints","ColumnConstraints in format/mysql/exporter.go")],observe=["DDL file"])
p("M02","MySQL export emits primary key, unique key and indexes faithfully",
"The exported table has a PRIMARY KEY over exactly the primary key columns, a UNIQUE KEY over exactly the unique columns named by the table name plus the configured suffix, and every declared index with its name and columns, all in declaration order and separated correctly; absent keys produce no clause.",
["inputs","configurations"],"every schema and suffix",
"One fixed table is compared; composite keys, indexes and their absence are not all covered.",
["format/mysql/exporter.go"],[("key clauses","exportTable in format/mysql/exporter.go")],observe=["DDL file"])
p("M03","MySQL import maps each column type to its octopus type",
"Importing MySQL DDL gives every supported MySQL column type the octopus type of the same meaning and width, with length, precision and scale where the octopus type has them (a one-bit or one-digit integer column is a boolean), and the enum and set members in order.",
["inputs"],"every MySQL column type and length",
"Tests import one fixed table per type family with one size each.",
["format/mysql/importer.go"],[("type mapping","format/mysql/importer.go")],observe=["octopus file"])
p("M04","MySQL import keeps column attributes, keys, indexes and table comments",
"Importing MySQL DDL keeps, for every created table that is not excluded, its name and comment and, for every column in order, its name, comment, nullability, primary key, uniqueness, auto-increment, default and on-update values, whether a key is declared inline or as a table constraint, and every named index with its columns. Nothing of one table or column leaks into another, and excluded tables are left out completely.",
["inputs","configurations"],"every DDL script, every excludes list",
"One fixture per feature; inline versus table constraint, several keys and exclusion interplay are unsampled.",
["format/mysql/importer.go"],[("column options and table constraints","format/mysql/importer.go")],observe=["octopus file"])
p("M05","MySQL export and import agree on every type",
"Every canonical octopus type that MySQL can express is read back as the same octopus type, with its size and scale, when the exported DDL type is imported again (spatial types, which the importer's SQL parser lacks, and one-bit and one-digit integer columns, which denote booleans, apart).",
["inputs"],"every canonical type",
"No test imports what was exported.",
["format/mysql/exporter.go","format/mysql/importer.go"],[("type tables","format/mysql/exporter.go and format/mysql/importer.go")])

p("X01","Spreadsheet export and import agree on layout and meaning",
"The xlsx exporter writes each attribute of schema, table and column in the sheet and cell from which the importer reads the same attribute, so that a re-imported workbook yields the attribute unchanged for every attribute the format documents.",
["inputs"],"every schema attribute",
"One round-trip fixture in which default and on-update are equal and most attributes empty.",
["format/xlsx/exporter.go","format/xlsx/importer.go"],[("cell layout","format/xlsx/exporter.go, format/xlsx/importer.go")],observe=["workbook cells","octopus file"])
p("X02","Spreadsheet import reads every documented cell notation",
"Importing a workbook gives each table row block, key and nullability marker, type with size and scale, documented attribute, description, reference and index row the documented meaning; the meta sheet gives the schema its author, name and version, the name of every other sheet is the group of its tables, and every table of every data sheet is imported with all its columns.",
["inputs"],"every workbook in the documented layout",
"A handful of fixed rows are parsed.",
["format/xlsx/importer.go","docs/xlsx.md"],[("row parsing","format/xlsx/importer.go")],observe=["octopus file"])

p("D01","A schema diff reports every column difference, from old to new",
"The diff of two schemas reports a change for every table present in both whose matching column differs in type, size, scale, permitted values, nullability, auto-increment, default or description, and none for attributes that are equal; diffing a schema with itself reports nothing. Every reported change leads from the 'from' schema to the 'to' schema and carries the 'to' value.",
["inputs","programs"],"every pair of schemas and every attribute combination",
"The diff code has no tests at all.",
["format/diff/diff.go","format/diff/changeset.go","format/liquibase/diff.go"],[("column comparison","format/diff/diff.go, format/liquibase/diff.go")],observe=["diff output"])
p("D02","A schema diff reports added, removed and renamed tables, columns and keys",
"A table or column only in 'to' is reported as added with all its definition, one only in 'from' as removed, one that changed only its name as renamed from old to new name, and changes of the primary key and unique column sets are reported as such - each exactly once and within the selected groups only.",
["inputs","configurations"],"every pair of schemas",
"The diff code has no tests at all.",
["format/diff/diff.go","format/liquibase/diff.go"],[("table/column matching","format/diff/diff.go, format/liquibase/diff.go")],observe=["diff output"])
p("D03","Changelog ids are unique and ordered",
"In every generated Liquibase changelog the change set ids are pairwise distinct per author and increase in the order of the tables and of the changes inside a table; no change set is empty.",
["inputs"],"every schema and every pair of schemas",
"Liquibase output has no tests.",
["format/liquibase/generator.go","format/liquibase/diff.go"],[("id counters","format/liquibase/generator.go")],observe=["YAML changelog"])
p("D04","Every schema change is rendered as the SQL statement with that effect",
"In the flyway diff every kind of change is rendered as a MySQL statement on the changed table and column that has exactly that effect, with the full new column definition where the statement needs it.",
["inputs"],"every change kind and column definition",
"The flyway renderer has no tests.",
["format/diff/flyway.go","format/diff/mysql.go"],[("change rendering","format/diff/mysql.go")],observe=["SQL file"])
p("D05","Every schema change appears in the markdown report",
"In the markdown diff every kind of change produces an entry under its table that names the table, the column and the new value where there is one; no change is dropped or listed twice.",
["inputs"],"every change kind",
"The markdown renderer has no tests.",
["format/diff/markdown.go"],[("change rendering","format/diff/markdown.go")],observe=["markdown file"])
p("L01","Liquibase changelog creates every table with its columns and constraints",
"The generated changelog creates every table with every column's name, type with size, scale and permitted values, auto-increment, nullability, primary key, default (a default function as a computed value) and - when comments are enabled - description, and adds the unique constraint over the unique columns with the configured name suffix.",
["inputs","configurations"],"every schema, type and option value",
"Liquibase output has no tests.",
["format/liquibase/generator.go"],[("createTable rendering","format/liquibase/generator.go")],observe=["YAML changelog"])

p("G01","GORM models declare every column with the right Go type and tag",
"Every column becomes a struct field whose Go type has the meaning, width and nullability of the column and whose gorm tag carries the column name where gorm cannot derive it, the size-qualified type (size of bit, char and varchar columns, precision and scale of decimal, float and double columns that have both), primary key, not null, unique (alone or in the table's shared unique index), index and auto-increment attributes the column has.",
["inputs"],"every column attribute combination and type",
"Tests compare a few fixed tables.",
["format/gorm/gorm.go","format/gorm/generator.go"],[("field mapping","format/gorm/gorm.go")],observe=["Go source file"])
p("G02","GORM models import exactly the packages their fields use",
"The generated Go source imports exactly the packages its field types refer to, declares the requested package, and returns the real table name from each model's table name method.",
["inputs","configurations"],"every schema and option combination",
"Only fixtures that use all imported packages are compared.",
["format/gorm/generator.go","format/gorm/gorm.go"],[("import collection","format/gorm/gorm.go")],observe=["Go source file"])
p("G03","GORM associations and embedded models follow the schema",
"A reference becomes an association field of the referenced model with the cardinality of the relationship, and a configured embedded model replaces exactly its columns, in exactly the tables that have all of them.",
["inputs","configurations"],"every reference and embed configuration",
"One embed and one relation fixture.",
["format/gorm/gorm.go","format/gorm/gorm_model.go"],[("associations","format/gorm/gorm.go"),("embedding","format/gorm/gorm_model.go")],observe=["Go source file"])
p("K01","Kotlin entities declare every column with the right type and annotations",
"Every column of a type the generator supports becomes a property with the Kotlin type of its meaning, nullable exactly when the column may be null in the object, and with the JPA annotations its attributes require: id, generated value, column name, length, precision and nullability; unique columns appear in the table's unique constraints.",
["inputs","configurations"],"every column attribute combination and type",
"Two fixed tables are compared.",
["format/jpa/kotlin.go","format/jpa/kotlin-gen.go"],[("field mapping","format/jpa/kotlin.go")],observe=["Kotlin source files"])
p("K02","Kotlin files carry the right package, imports, class names and id classes",
"Every entity file declares the requested package, imports exactly what its code refers to and uses the class name of its table; tables with a composite primary key get an id class with exactly the key columns, and repositories are generated for the entity and its id type.",
["inputs","configurations"],"every schema and option combination",
"Two fixed tables are compared; no file placement.",
["format/jpa/kotlin-gen.go","format/jpa/kotlin.go"],[("entity/repository templates","format/jpa/kotlin-gen.go")],observe=["Kotlin source files"])
p("S01","SQLAlchemy models declare every column with the right type and options",
"Every column of a type the generator supports becomes a class attribute with the SQLAlchemy type of its meaning, with size where the type takes one, and with primary key, auto-increment, unique and nullability options exactly as the column has them; the module imports every name it uses.",
["inputs","configurations"],"every column attribute combination and type",
"The only test is skipped.",
["format/sqlalchemy/generator.go","format/sqlalchemy/sqlalchemy.go"],[("field mapping","format/sqlalchemy/sqlalchemy.go")],observe=["Python source files"])
p("P01","Protobuf messages declare every column once with the right type and number",
"Every table becomes a message with one field per column; a column of a string, integer, boolean, floating point, decimal or datetime type has the protobuf scalar type of its meaning. Fields are numbered consecutively from the start of the message without gaps or duplicates, relation fields being numbered as configured; the needed imports and the configured package options are present.",
["inputs","configurations"],"every schema and option combination",
"One fixed schema is compared.",
["format/protobuf/generator.go"],[("field mapping and numbering","format/protobuf/generator.go")],observe=["proto file"])
p("Q01","GraphQL types declare every column with the right type and nullability",
"Every table becomes a GraphQL type with one field per column of the scalar type of the column's meaning, marked non-null exactly when the column is not null; a single primary key column becomes the ID field.",
["inputs"],"every column attribute combination and type",
"GraphQL output has no tests.",
["format/graphql/generator.go"],[("field mapping","format/graphql/generator.go")],observe=["GraphQL file"])
p("B01","DBML export carries every column attribute and every reference",
"The DBML output declares every column with its type, size and scale and with pk, unique, not null, default and note settings exactly when the column has the attribute, and every reference exactly once with the direction of its relationship.",
["inputs"],"every schema",
"DBML output has no tests.",
["format/dbml/exporter.go"],[("column settings and refs","format/dbml/exporter.go")],observe=["DBML file"])
p("B02","QuickDBD export carries every column attribute and every reference",
"The QuickDBD output declares every column with its type, key and nullability markers and default exactly when the column has the attribute, and every reference with the symbol of its relationship.",
["inputs"],"every schema",
"QuickDBD output has no tests.",
["format/quickdbd/exporter.go"],[("column rendering","format/quickdbd/exporter.go")],observe=["QuickDBD file"])
p("U01","PlantUML output shows every table, column, key and relation",
"The PlantUML output shows every table as an entity with every column and its key markers, a separator before the first column that is not part of the primary key, mandatory columns marked, and one relation line per reference with the cardinality of the relationship.",
["inputs"],"every schema",
"PlantUML output has no tests.",
["format/plantuml/generator.go"],[("entity rendering","format/plantuml/generator.go")],observe=["PlantUML file"])
p("N01","Class names follow the naming rules and the prefix options",
"In every generator that produces classes, an explicit class name of a table is used as given, otherwise the name is the camel-cased table name after removing the configured prefixes, and a configured group prefix is put in front for tables of that group only (a prefix without group applies to all groups). The protobuf generator always uses the derived name.",
["inputs","configurations"],"every table name, class name, prefix configuration and generator",
"Prefix options are exercised for one generator and one value.",
["format/common/prefix.go","format/gorm/gorm.go","format/jpa/kotlin.go","format/sqlalchemy/sqlalchemy.go","format/protobuf/generator.go","format/graphql/generator.go"],[("prefix mapping","format/common/prefix.go")],observe=["generated sources"])
p("I01","Version 1 documents are imported without losing attributes",
"Importing a version 1 octopus document keeps every schema, table and column attribute that version 1 defines, under the corresponding version 2 key: author, name and version; table names, descriptions, groups and class names; column names, types, descriptions, sizes, scales, nullability, primary and unique keys, auto-increment, default values and references.",
["inputs"],"every version 1 document",
"The importer has no tests.",
["format/ojson/importer.go","format/ojson/table.go","format/ojson/column.go"],[("conversion","format/ojson/importer.go")],observe=["octopus file"])
p("I02","StarUML models are imported with all entities and columns",
"Importing a StarUML file yields one table per entity with its name and description and one column per attribute with name, type, length, keys, nullability, description and the reference it declares.",
["inputs"],"every StarUML model",
"The importer has no tests.",
["format/staruml/importer.go","format/staruml/staruml.go"],[("conversion","format/staruml/importer.go")],observe=["octopus file"])
p("T01","The init command writes the documented starter schema",
"The init command writes, to the requested path, the starter schema shown in the documentation, which every other command accepts.",
["configurations"],"every output path",
"The init command has no tests.",
[O+"cli.go","docs/init.md"],[("starter schema",O+"cli.go")],observe=["octopus file"])
p("E01","Generated source compiles with the target toolchains",
"For every valid schema the generated Go, Kotlin, Python, protobuf and GraphQL sources are accepted by the compilers and interpreters of those languages.",
["inputs","configurations"],"every schema and option combination","Tests compare text; no target compiler is run.",
["format/gorm/","format/jpa/","format/sqlalchemy/","format/protobuf/","format/graphql/"],[("templates","format/*")])
for d in P: print(json.dumps(d,ensure_ascii=False))
