From d0ce850e16cc8cda1bced20b806adc7f3e13cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:00 +0000
Subject: [PATCH 01/50] fix: keep the size of binary and varbinary columns in
 MySQL DDL

---
 format/mysql/exporter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index ce395c6..4138048 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -138,7 +138,7 @@ func (c *Exporter) formatColumnType(colType string, col *octopus.Column) string
 func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	switch col.Type {
 	case octopus.ColTypeBinary:
-		return "binary"
+		return c.formatColumnType("binary", col)
 	case octopus.ColTypeBit:
 		return c.formatColumnType("bit", col)
 	case octopus.ColTypeBlob8:
@@ -194,7 +194,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypeTime:
 		return "time"
 	case octopus.ColTypeVarbinary:
-		return "varbinary"
+		return c.formatColumnType("varbinary", col)
 	case octopus.ColTypeVarchar:
 		return c.formatColumnType("varchar", col)
 	case octopus.ColTypeYear:
-- 
2.43.0


From 9d3dec5ce291e8ef8ddf534554ea7921597f1027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 02/50] fix: reject invalid schemas when loading an octopus
 file

---
 format/octopus/io.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/format/octopus/io.go b/format/octopus/io.go
index 52042dc..26b894b 100644
--- a/format/octopus/io.go
+++ b/format/octopus/io.go
@@ -17,7 +17,9 @@ func LoadSchema(filename string) (*Schema, error) {
 	if schema, err := reader.ToSchema(); err != nil {
 		return nil, err
 	} else {
-		schema.Normalize()
+		if err := schema.Normalize(); err != nil {
+			return nil, err
+		}
 		return schema, nil
 	}
 }
-- 
2.43.0


From 03fcdb268a417b8d87e7daf5bc1f5b88520b9d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 03/50] fix: apply the groups option to the dbml export

---
 format/dbml/exporter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 454524a..d7c4e06 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -33,6 +33,11 @@ func (c *Exporter) exportToString() ([]byte, error) {
 	definedTables := make(map[string]bool)
 
 	for _, table := range c.schema.Tables {
+		// filter table
+		if c.option.TableFilter != nil && !c.option.TableFilter(table) {
+			continue
+		}
+
 		result = append(result, fmt.Sprintf("Table %s {", table.Name))
 
 		for _, column := range table.Columns {
-- 
2.43.0


From 23a6365d27e725f3b95089d414168993522a9aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 04/50] fix: pass the unique name suffix to the liquibase diff

---
 format/diff/cli.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/format/diff/cli.go b/format/diff/cli.go
index 54e7ca0..d9aba94 100644
--- a/format/diff/cli.go
+++ b/format/diff/cli.go
@@ -70,11 +70,12 @@ func LiquibaseAction(c *cli.Context) error {
 
 	return liquibase.NewDiff(
 		&liquibase.DiffOption{
-			Author:      c.String(FlagAuthor),
-			DiffFrom:    fromSchema,
-			DiffTo:      toSchema,
-			TableFilter: octopus.GetTableFilterFn(c.String(FlagGroups)),
-			UseComments: c.Bool(FlagUseComments),
+			Author:           c.String(FlagAuthor),
+			DiffFrom:         fromSchema,
+			DiffTo:           toSchema,
+			TableFilter:      octopus.GetTableFilterFn(c.String(FlagGroups)),
+			UniqueNameSuffix: c.String(FlagUniqueNameSuffix),
+			UseComments:      c.Bool(FlagUseComments),
 		},
 	).Generate(c.String(FlagOutput))
 }
-- 
2.43.0


From ef26378c570503f7b58cc44ad1a0522760f91b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 05/50] fix: report added columns in the schema diff

---
 format/diff/diff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 258bd25..c520df2 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -249,6 +249,7 @@ func diffTable(
 				AfterColumn:  nil,
 			})
 		}
+		changeSets = append(changeSets, changeSet)
 	}
 
 	// primary key
-- 
2.43.0


From a153c440a19e6f94c950e64dbefe6f12c9b5dd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 06/50] fix: do not report tables of other groups as removed

---
 format/diff/diff.go      | 12 +++++++-----
 format/liquibase/diff.go | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index c520df2..bf81251 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -35,20 +35,22 @@ func getDiff(option *Option) (*Result, error) {
 	var addedTables []*octopus.Table
 	renamedTableMap := make(map[*octopus.Table]*octopus.Table)
 	removedTableNames := util.NewStringSet()
-	for name := range fromTableByName {
-		removedTableNames.Add(name)
+	for name, table := range fromTableByName {
+		if option.TableFilter == nil || option.TableFilter(table) {
+			removedTableNames.Add(name)
+		}
 	}
 
 	id := newChangeSetID()
 	for _, table := range option.DiffTo.Tables {
+		tableName := table.Name
+		removedTableNames.Remove(tableName)
+
 		// filter table
 		if option.TableFilter != nil && !option.TableFilter(table) {
 			continue
 		}
 
-		tableName := table.Name
-		removedTableNames.Remove(tableName)
-
 		oldTable, ok := fromTableByName[tableName]
 		if !ok {
 			// added
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 1c6594c..cb12243 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -53,20 +53,22 @@ func (c *Diff) generate() ([]byte, error) {
 	var addedTables []*octopus.Table
 	renamedTableMap := make(map[*octopus.Table]*octopus.Table)
 	removedTableNames := util.NewStringSet()
-	for name := range fromTableByName {
-		removedTableNames.Add(name)
+	for name, table := range fromTableByName {
+		if option.TableFilter == nil || option.TableFilter(table) {
+			removedTableNames.Add(name)
+		}
 	}
 
 	id := newLqId()
 	for _, table := range option.DiffTo.Tables {
+		tableName := table.Name
+		removedTableNames.Remove(tableName)
+
 		// filter table
 		if option.TableFilter != nil && !option.TableFilter(table) {
 			continue
 		}
 
-		tableName := table.Name
-		removedTableNames.Remove(tableName)
-
 		oldTable, ok := fromTableByName[tableName]
 		if !ok {
 			// added
-- 
2.43.0


From 2f927551321855cb3b18cbb6156a4c3242d52230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 07/50] fix: report renamed tables and columns in schema order

---
 format/diff/diff.go      | 12 ++++++++++--
 format/liquibase/diff.go | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index bf81251..4c99ee2 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -95,7 +95,11 @@ func getDiff(option *Option) (*Result, error) {
 	}
 
 	// renamed tables
-	for newTable, oldTable := range renamedTableMap {
+	for _, newTable := range addedTables {
+		oldTable, ok := renamedTableMap[newTable]
+		if !ok {
+			continue
+		}
 		id.bumpMajor()
 
 		// drop old unique constraint
@@ -226,7 +230,11 @@ func diffTable(
 	}
 
 	// renamed columns
-	for newColumn, oldColumn := range renamedColumnMap {
+	for _, newColumn := range addedColumns {
+		oldColumn, ok := renamedColumnMap[newColumn]
+		if !ok {
+			continue
+		}
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
 		changeSet.Add(&RenameColumn{Table: table, OldColumn: oldColumn, NewColumn: newColumn})
 		changeSets = append(changeSets, changeSet)
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index cb12243..8813aba 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -113,7 +113,11 @@ func (c *Diff) generate() ([]byte, error) {
 	}
 
 	// renamed tables
-	for newTable, oldTable := range renamedTableMap {
+	for _, newTable := range addedTables {
+		oldTable, ok := renamedTableMap[newTable]
+		if !ok {
+			continue
+		}
 		id.bumpMajor()
 
 		// drop old unique constraint
@@ -243,7 +247,11 @@ func (c *Diff) diffTable(
 	}
 
 	// renamed columns
-	for newColumn, oldColumn := range renamedColumnMap {
+	for _, newColumn := range addedColumns {
+		oldColumn, ok := renamedColumnMap[newColumn]
+		if !ok {
+			continue
+		}
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("renameColumn", newRenameColumn(table, newColumn, oldColumn))
 		changeSets = append(changeSets, changeSet)
-- 
2.43.0


From 786e3a0e746f36128df4e8e3b8255b5bda3ae787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 08/50] fix: drop and add the unique constraint only when there
 is one

---
 format/liquibase/diff.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 8813aba..a938c4e 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -232,7 +232,7 @@ func (c *Diff) diffTable(
 	uniqueChanged := !uqSet.Equals(oldUqSet)
 
 	// drop unique constraint
-	if uniqueChanged {
+	if uniqueChanged && oldUqSet.Size() > 0 {
 		uniqueConstraintName := table.Name + uniqueNameSuffix
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("dropUniqueConstraint", newDropUniqueConstraint(table, uniqueConstraintName))
@@ -299,13 +299,11 @@ func (c *Diff) diffTable(
 	}
 
 	// add unique constraint
-	if uniqueChanged {
+	if uniqueChanged && uqSet.Size() > 0 {
 		uniqueConstraintName := table.Name + uniqueNameSuffix
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
-		if uqSet.Size() > 0 {
-			uniqueColumeNames := uqSet.Join(", ")
-			changeSet.Append("addUniqueConstraint", newAddUniqueConstraint(table, uniqueColumeNames, uniqueConstraintName))
-		}
+		uniqueColumeNames := uqSet.Join(", ")
+		changeSet.Append("addUniqueConstraint", newAddUniqueConstraint(table, uniqueColumeNames, uniqueConstraintName))
 		changeSets = append(changeSets, changeSet)
 	}
 
-- 
2.43.0


From 3f8e156b87ceb7cb80232c732cf997ed5d3c1269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 09/50] fix: keep default values and class names of version 1
 documents

---
 format/ojson/importer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index a02c5dc..c89aeae 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -61,6 +61,7 @@ func (c *Importer) fromOjsonTable(table1 *Table) *octopus.Table {
 		Columns:     columns,
 		Description: table1.Description,
 		Group:       table1.Group,
+		ClassName:   table1.ClassName,
 	}
 }
 
@@ -82,7 +83,7 @@ func (c *Importer) fromOjsonColumn(column1 *Column) *octopus.Column {
 		PrimaryKey:      column1.PrimaryKey,
 		UniqueKey:       column1.UniqueKey,
 		AutoIncremental: column1.AutoIncremental,
-		DefaultValue:    column1.Description,
+		DefaultValue:    column1.DefaultValue,
 		Ref:             ref,
 	}
 }
-- 
2.43.0


From f33ed41233d5ed5a33ad09f5cd1f104ce73f0f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 10/50] fix: write kotlin sources below the output directory
 when no package is given

---
 util/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/io.go b/util/io.go
index 6625fff..2e66fc7 100644
--- a/util/io.go
+++ b/util/io.go
@@ -11,7 +11,7 @@ import (
 // MkdirPackage creates nested package directories.
 func MkdirPackage(basedir, pkgName string) (string, error) {
 	if pkgName == "" {
-		return "", nil
+		return Mkdir(basedir)
 	}
 	dir := path.Join(append([]string{basedir}, strings.Split(pkgName, ".")...)...)
 	if err := os.MkdirAll(dir, 0777); err != nil {
-- 
2.43.0


From dbc5a5d2adef8cf6dd2be36bce6562bfc4cdd210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 11/50] fix: write the starter schema to db.json by default

---
 format/octopus/cli.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/octopus/cli.go b/format/octopus/cli.go
index 961cf49..7d8b6ad 100644
--- a/format/octopus/cli.go
+++ b/format/octopus/cli.go
@@ -71,6 +71,7 @@ var InitCliFlags = []cli.Flag{
 		Aliases:     []string{"o"},
 		Usage:       "init octopus schema to `FILE`",
 		EnvVars:     []string{"OCTOPUS_OUTPUT"},
+		Value:       "db.json",
 		DefaultText: "db.json",
 	},
 }
-- 
2.43.0


From f3b54496e5890f609f733f885c663fbf0591bdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:03 +0000
Subject: [PATCH 12/50] fix: render column changes of the flyway diff as valid
 MySQL statements

---
 format/diff/mysql.go | 63 +++++++++++++++++---------------------------
 1 file changed, 24 insertions(+), 39 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 120f678..4f6b3e9 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/format/mysql"
+	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"reflect"
 	"strings"
 )
@@ -60,6 +61,21 @@ func (b *MysqlQueryBuilder) ToSQL(change interface{}) ([]string, error) {
 	}
 }
 
+// columnDefinition returns the full definition of a column: name, type and constraints.
+func (b *MysqlQueryBuilder) columnDefinition(column *octopus.Column) string {
+	definition := column.Name + " " + b.mysqlExporter.ToMysqlColumnType(column)
+	if constraints := b.mysqlExporter.ColumnConstraints(column); constraints != "" {
+		definition += " " + constraints
+	}
+	return definition
+}
+
+func (b *MysqlQueryBuilder) modifyColumnSQL(table *octopus.Table, column *octopus.Column) ([]string, error) {
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s;", table.Name, b.columnDefinition(column)),
+	}, nil
+}
+
 func (b *MysqlQueryBuilder) toCreateTableSQL(c *CreateTable) ([]string, error) {
 	buf := new(bytes.Buffer)
 	if err := b.mysqlExporter.ExportTable(buf, c.Table); err != nil {
@@ -86,8 +102,9 @@ func (b *MysqlQueryBuilder) toUpdatePrimaryKeySQL(c *UpdatePrimaryKey) ([]string
 	tableName := table.Name
 	pkColumnNames := table.PrimaryKeyNameSet().Slice()
 
-	result := []string{
-		fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY;", tableName),
+	var result []string
+	if c.OldTable.PrimaryKeyNameSet().Size() > 0 {
+		result = append(result, fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY;", tableName))
 	}
 
 	if len(pkColumnNames) > 0 {
@@ -113,16 +130,9 @@ func (b *MysqlQueryBuilder) toSetTableCommentSQL(c *SetTableComment) ([]string,
 }
 
 func (b *MysqlQueryBuilder) toAddColumnSQL(c *AddColumn) ([]string, error) {
-	tableName := c.Table.Name
-	column := c.Column
-	columnType := b.mysqlExporter.ToMysqlColumnType(column)
-	colConstraints := b.mysqlExporter.ColumnConstraints(column)
-
-	sql := fmt.Sprintf("ALTER TABLE %s MODIFY ADD %s %s", tableName, column.Name, columnType)
-	if colConstraints != "" {
-		sql += " " + colConstraints
-	}
-	return []string{sql + ";"}, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s ADD COLUMN %s;", c.Table.Name, b.columnDefinition(c.Column)),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toDropColumnSQL(c *DropColumn) ([]string, error) {
@@ -146,36 +156,11 @@ func (b *MysqlQueryBuilder) toRenameColumnSQL(c *RenameColumn) ([]string, error)
 }
 
 func (b *MysqlQueryBuilder) toSetNotNullConstraintSQL(c *SetNotNullConstraint) ([]string, error) {
-	tableName := c.Table.Name
-	column := c.Column
-	columnType := b.mysqlExporter.ToMysqlColumnType(column)
-
-	var sql string
-	if column.NotNull {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY %s %s NOT NULL;", tableName, column.Name, columnType)
-	} else {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY %s %s;", tableName, column.Name, columnType)
-	}
-	return []string{sql}, nil
+	return b.modifyColumnSQL(c.Table, c.Column)
 }
 
 func (b *MysqlQueryBuilder) toSetAutoIncrementSQL(c *SetAutoIncrement) ([]string, error) {
-	tableName := c.Table.Name
-	column := c.Column
-	columnName := column.Name
-	columnType := b.mysqlExporter.ToMysqlColumnType(column)
-
-	var sql string
-	if c.Column.AutoIncremental {
-		sql = strings.Join([]string{
-			fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s %s", tableName, columnName, columnType),
-			b.mysqlExporter.ColumnConstraints(column),
-		}, " ") + ";"
-	} else {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s %s AUTO_INCREMENT PRIMARY KEY;",
-			tableName, columnName, columnType)
-	}
-	return []string{sql}, nil
+	return b.modifyColumnSQL(c.Table, c.Column)
 }
 
 func (b *MysqlQueryBuilder) toSetDefaultValueSQL(c *SetDefaultValue) ([]string, error) {
-- 
2.43.0


From e5e8e3a39a700d41bc9176cacaf17c9257a5abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:03 +0000
Subject: [PATCH 13/50] fix: emit a statement for every change of the flyway
 diff

---
 format/diff/mysql.go | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 4f6b3e9..e2e4445 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -115,18 +115,22 @@ func (b *MysqlQueryBuilder) toUpdatePrimaryKeySQL(c *UpdatePrimaryKey) ([]string
 }
 
 func (b *MysqlQueryBuilder) toCreateUniqueConstraintSQL(c *CreateUniqueConstraint) ([]string, error) {
-	// TODO
-	return nil, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s ADD UNIQUE KEY `%s` (%s);",
+			c.Table.Name, c.ConstraintName, c.Table.UniqueKeyNameSet().Join(",")),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toDropUniqueConstraintSQL(c *DropUniqueConstraint) ([]string, error) {
-	// TODO
-	return nil, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s DROP INDEX `%s`;", c.Table.Name, c.ConstraintName),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toSetTableCommentSQL(c *SetTableComment) ([]string, error) {
-	// TODO
-	return nil, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s COMMENT = '%s';", c.Table.Name, c.Table.Description),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toAddColumnSQL(c *AddColumn) ([]string, error) {
@@ -136,23 +140,24 @@ func (b *MysqlQueryBuilder) toAddColumnSQL(c *AddColumn) ([]string, error) {
 }
 
 func (b *MysqlQueryBuilder) toDropColumnSQL(c *DropColumn) ([]string, error) {
-	// TODO
-	return nil, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s DROP COLUMN %s;", c.Table.Name, c.ColumnName),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toSetColumnCommentSQL(c *SetColumnComment) ([]string, error) {
-	// TODO
-	return nil, nil
+	return b.modifyColumnSQL(c.Table, c.Column)
 }
 
 func (b *MysqlQueryBuilder) toChangeColumnTypeSQL(c *ChangeColumnType) ([]string, error) {
-	// TODO
-	return nil, nil
+	return b.modifyColumnSQL(c.Table, c.NewColumn)
 }
 
 func (b *MysqlQueryBuilder) toRenameColumnSQL(c *RenameColumn) ([]string, error) {
-	// TODO
-	return nil, nil
+	return []string{
+		fmt.Sprintf("ALTER TABLE %s CHANGE COLUMN %s %s;",
+			c.Table.Name, c.OldColumn.Name, b.columnDefinition(c.NewColumn)),
+	}, nil
 }
 
 func (b *MysqlQueryBuilder) toSetNotNullConstraintSQL(c *SetNotNullConstraint) ([]string, error) {
@@ -164,6 +169,5 @@ func (b *MysqlQueryBuilder) toSetAutoIncrementSQL(c *SetAutoIncrement) ([]string
 }
 
 func (b *MysqlQueryBuilder) toSetDefaultValueSQL(c *SetDefaultValue) ([]string, error) {
-	// TODO
-	return nil, nil
+	return b.modifyColumnSQL(c.Table, c.Column)
 }
-- 
2.43.0


From ad8564d0e690adff20ffad03ab2c6d26b69e0235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 14/50] fix: embed models in the order of their names

---
 format/gorm/gorm_model.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/gorm/gorm_model.go b/format/gorm/gorm_model.go
index 0259bad..fd0ff2b 100644
--- a/format/gorm/gorm_model.go
+++ b/format/gorm/gorm_model.go
@@ -3,6 +3,7 @@ package gorm
 import (
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"regexp"
+	"sort"
 	"strings"
 )
 
@@ -54,6 +55,7 @@ func (m EmbeddedModels) Names() []string {
 	for name, _ := range m {
 		names = append(names, name)
 	}
+	sort.Strings(names)
 	return names
 }
 
@@ -82,7 +84,8 @@ func extractEmbeddedModels(fields []*GoField) EmbeddedModels {
 	}
 
 	result := EmbeddedModels{}
-	for name, model := range embeddedModels {
+	for _, name := range embeddedModels.Names() {
+		model := embeddedModels[name]
 		if columnNameSet.ContainsAll(model.ColumnNames) {
 			result[name] = model
 			columnNameSet.RemoveAll(model.ColumnNames)
-- 
2.43.0


From c097ec744a38b9d2a5a654b0ec14eeb97d34359f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:45 +0000
Subject: [PATCH 15/50] fix: import sheets in workbook order

---
 format/xlsx/importer.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index e2c282f..c96fefd 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -13,7 +13,7 @@ type ImportOption struct {
 
 type Importer struct {
 	metaSheet        *xlsx.Sheet
-	sheetsByGroup    map[string]*xlsx.Sheet
+	groupSheets      []*xlsx.Sheet
 	useNotNullColumn bool
 }
 
@@ -23,14 +23,13 @@ func (c *Importer) Import(filename string) (*octopus.Schema, error) {
 		return nil, err
 	}
 
-	c.sheetsByGroup = make(map[string]*xlsx.Sheet)
-
+	c.groupSheets = nil
 	for _, sheet := range xlFile.Sheets {
 		sheetName := sheet.Name
 		if sheetName == xlsxSheetMeta {
 			c.metaSheet = sheet
 		} else {
-			c.sheetsByGroup[sheet.Name] = sheet
+			c.groupSheets = append(c.groupSheets, sheet)
 		}
 	}
 	return c.toSchema()
@@ -49,8 +48,8 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 		version = keyValues[xlsxMetaVersion]
 	}
 
-	for groupName, sheet := range c.sheetsByGroup {
-		groupTables, err := readGroupSheet(groupName, sheet)
+	for _, sheet := range c.groupSheets {
+		groupTables, err := readGroupSheet(sheet.Name, sheet)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 5cfd3c89d48d55a1bc2de42eadde2acb0101f8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:35 +0000
Subject: [PATCH 16/50] fix: export the on update value to xlsx

---
 format/xlsx/exporter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/xlsx/exporter.go b/format/xlsx/exporter.go
index 5a82235..c555688 100644
--- a/format/xlsx/exporter.go
+++ b/format/xlsx/exporter.go
@@ -264,7 +264,7 @@ func getColumnAttributes(column *octopus.Column) []string {
 		attrs = append(attrs, attrDefault+"="+column.DefaultValue)
 	}
 	if column.OnUpdate != "" {
-		attrs = append(attrs, attrOnUpdate+"="+column.DefaultValue)
+		attrs = append(attrs, attrOnUpdate+"="+column.OnUpdate)
 	}
 
 	return attrs
-- 
2.43.0


From 66e3a9ece01e4f78118f614e787da7741b3c4b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:38 +0000
Subject: [PATCH 17/50] fix: keep the relationship of references in xlsx

---
 format/xlsx/constants.go |  4 ++++
 format/xlsx/exporter.go  | 15 ++++++++++++++-
 format/xlsx/importer.go  | 23 ++++++++++++-----------
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/format/xlsx/constants.go b/format/xlsx/constants.go
index 9bbef06..95ad015 100644
--- a/format/xlsx/constants.go
+++ b/format/xlsx/constants.go
@@ -17,6 +17,10 @@ const (
 	keyUnique  = "U"
 	keyIndex   = "I"
 
+	refMarkManyToOne = ">"
+	refMarkOneToMany = "<"
+	refMarkOneToOne  = "-"
+
 	attrAutoInc  = "autoInc"
 	attrClass    = "class"
 	attrDefault  = "default"
diff --git a/format/xlsx/exporter.go b/format/xlsx/exporter.go
index c555688..384aa3a 100644
--- a/format/xlsx/exporter.go
+++ b/format/xlsx/exporter.go
@@ -270,9 +270,22 @@ func getColumnAttributes(column *octopus.Column) []string {
 	return attrs
 }
 
+func getRelationshipMark(relationship string) string {
+	switch relationship {
+	case octopus.RefManyToOne:
+		return refMarkManyToOne
+	case octopus.RefOneToMany:
+		return refMarkOneToMany
+	case octopus.RefOneToOne:
+		return refMarkOneToOne
+	default:
+		return ""
+	}
+}
+
 func getColumnReference(column *octopus.Column) string {
 	if ref := column.Ref; ref != nil {
-		return fmt.Sprintf("%s.%s", ref.Table, ref.Column)
+		return fmt.Sprintf("%s%s.%s", getRelationshipMark(ref.Relationship), ref.Table, ref.Column)
 	}
 	return ""
 }
diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index c96fefd..f66b34d 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -201,18 +201,19 @@ func parseReference(s string) *octopus.Reference {
 			table := tokens[0]
 			column := tokens[1]
 
+			relationship := octopus.RefManyToOne
+			switch {
+			case strings.HasPrefix(table, refMarkManyToOne):
+				table = strings.TrimPrefix(table, refMarkManyToOne)
+			case strings.HasPrefix(table, refMarkOneToMany):
+				table = strings.TrimPrefix(table, refMarkOneToMany)
+				relationship = octopus.RefOneToMany
+			case strings.HasPrefix(table, refMarkOneToOne):
+				table = strings.TrimPrefix(table, refMarkOneToOne)
+				relationship = octopus.RefOneToOne
+			}
+
 			if table != "" && column != "" {
-				var relationship string
-				switch []rune(table)[0] {
-				case '>':
-					relationship = octopus.RefManyToOne
-				case '<':
-					relationship = octopus.RefOneToMany
-				case '-':
-					relationship = octopus.RefOneToOne
-				default:
-					relationship = octopus.RefManyToOne
-				}
 				return &octopus.Reference{
 					Table:        table,
 					Column:       column,
-- 
2.43.0


From 3fc69edfd3f8d38c69e9cf4a7f2eee154b2947dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 18/50] fix: accept the documented autoinc attribute of xlsx
 columns

---
 format/xlsx/constants.go | 9 +++++----
 format/xlsx/importer.go  | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/format/xlsx/constants.go b/format/xlsx/constants.go
index 95ad015..6a38cfb 100644
--- a/format/xlsx/constants.go
+++ b/format/xlsx/constants.go
@@ -21,8 +21,9 @@ const (
 	refMarkOneToMany = "<"
 	refMarkOneToOne  = "-"
 
-	attrAutoInc  = "autoInc"
-	attrClass    = "class"
-	attrDefault  = "default"
-	attrOnUpdate = "onUpdate"
+	attrAutoInc      = "autoInc"
+	attrAutoIncLower = "autoinc"
+	attrClass        = "class"
+	attrDefault      = "default"
+	attrOnUpdate     = "onUpdate"
 )
diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index f66b34d..ebb1628 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -161,7 +161,7 @@ func readGroupSheet(groupName string, sheet *xlsx.Sheet) ([]*octopus.Table, erro
 				NotNull:         util.IfThenElseBool(useNotNullColumn, nullableValue != "", nullableValue == ""),
 				PrimaryKey:      keyValue == keyPrimary,
 				UniqueKey:       keyValue == keyUnique,
-				AutoIncremental: attrMap[attrAutoInc] == "true",
+				AutoIncremental: attrMap[attrAutoInc] == "true" || attrMap[attrAutoIncLower] == "true",
 				DefaultValue:    attrMap[attrDefault],
 				OnUpdate:        attrMap[attrOnUpdate],
 				Ref:             ref,
-- 
2.43.0


From b89f84a4aa64983f4436ca77d3d4610bb94943f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:52 +0000
Subject: [PATCH 19/50] fix: parse the size of types whose name has digits

---
 util/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/types.go b/util/types.go
index 18b0ede..e456b5b 100644
--- a/util/types.go
+++ b/util/types.go
@@ -64,7 +64,7 @@ func IsDateType(typ string) bool {
 // ParseType parses column type
 // returns name, size, scale
 func ParseType(str string) (string, uint16, uint16) {
-	r := regexp.MustCompile(`(?m)([a-zA-Z]+)\(([0-9]+)[\s,]*([0-9]*)\)`)
+	r := regexp.MustCompile(`(?m)([a-zA-Z][a-zA-Z0-9]*)\(([0-9]+)[\s,]*([0-9]*)\)`)
 	groups, _ := MatchRegexGroups(r, str)
 	groupCount := len(groups)
 
-- 
2.43.0


From 4744a7334c51c96f96bf20977a7f0466bdaf2fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 20/50] fix: accept useUTC of sqlalchemy as a flag without
 value

---
 format/sqlalchemy/cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/cli.go b/format/sqlalchemy/cli.go
index db5ddac..793c188 100644
--- a/format/sqlalchemy/cli.go
+++ b/format/sqlalchemy/cli.go
@@ -75,7 +75,7 @@ var CliFlags = []cli.Flag{
 		Usage:   "set unique constraint name suffix",
 		EnvVars: []string{"OCTOPUS_UNIQUE_NAME_SUFFIX"},
 	},
-	&cli.StringFlag{
+	&cli.BoolFlag{
 		Name:    FlagUseUTC,
 		Aliases: []string{"t"},
 		Usage:   "use UTC for audit column default value",
-- 
2.43.0


From 34db62b54c3fd6fdf4da26907686f27228e34075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:09 +0000
Subject: [PATCH 21/50] fix: accept the options the graphql command reads

---
 format/graphql/cli.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/format/graphql/cli.go b/format/graphql/cli.go
index 1a67016..c302e68 100644
--- a/format/graphql/cli.go
+++ b/format/graphql/cli.go
@@ -54,4 +54,22 @@ var CliFlags = []cli.Flag{
 		Usage:   "set target graphql package name",
 		EnvVars: []string{"OCTOPUS_GRAPHQL_PACKAGE"},
 	},
+	&cli.StringFlag{
+		Name:    FlagGroups,
+		Aliases: []string{"g"},
+		Usage:   "filter table groups to generate. set multiple values with comma separated.",
+		EnvVars: []string{"OCTOPUS_GROUPS"},
+	},
+	&cli.StringFlag{
+		Name:    FlagPrefix,
+		Aliases: []string{"f"},
+		Usage:   "set type name prefix",
+		EnvVars: []string{"OCTOPUS_PREFIX"},
+	},
+	&cli.StringFlag{
+		Name:    FlagRemovePrefix,
+		Aliases: []string{"d"},
+		Usage:   "set prefixes to remove from type name. set multiple values with comma separated.",
+		EnvVars: []string{"OCTOPUS_REMOVE_PREFIX"},
+	},
 }
-- 
2.43.0


From 4570304b0f666ca65b1d8b3cf9cb431b80be1c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:43 +0000
Subject: [PATCH 22/50] fix: apply the relation tag options of protobuf

---
 format/protobuf/cli.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/format/protobuf/cli.go b/format/protobuf/cli.go
index a5c0da8..01c7e78 100644
--- a/format/protobuf/cli.go
+++ b/format/protobuf/cli.go
@@ -36,8 +36,8 @@ func Action(c *cli.Context) error {
 			Package:          c.String(FlagPackage),
 			GoPackage:        c.String(FlagGoPackage),
 			FilePath:         c.String(FlagOutput),
-			RelationTagStart: -1,
-			RelationTagDecr:  false,
+			RelationTagStart: c.Int(FlogRelationTagStart),
+			RelationTagDecr:  c.Bool(FlogRelationTagDecr),
 		},
 	)
 	buf := new(bytes.Buffer)
@@ -98,10 +98,11 @@ var CliFlags = []cli.Flag{
 		Usage:   "set relation tags decremental from `relationTagStart`",
 		EnvVars: []string{"OCTOPUS_RELATION_TAG_DECR"},
 	},
-	&cli.StringFlag{
+	&cli.IntFlag{
 		Name:    FlogRelationTagStart,
 		Aliases: []string{"s"},
 		Usage:   "set relation tags start index. set -1 to start from last of fields.",
 		EnvVars: []string{"OCTOPUS_RELATION_TAG_START"},
+		Value:   -1,
 	},
 }
-- 
2.43.0


From eef1e8433f4ebc38f8a31abfeb325de6d24ad048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 23/50] fix: number protobuf relations downwards with
 relationTagDecr

---
 format/protobuf/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 52fb0ac..ad4cc41 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -218,7 +218,11 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 
 	// update tag of relations
 	for i, relation := range relations {
-		relation.Tag = relTagStart + i
+		if relTagDecr {
+			relation.Tag = relTagStart - i
+		} else {
+			relation.Tag = relTagStart + i
+		}
 	}
 
 	return &PbMessage{
-- 
2.43.0


From a01ece13b8e58d302edb73ce5f8098953fccf13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:48 +0000
Subject: [PATCH 24/50] fix: do not crash on protobuf references to unknown
 tables

---
 format/protobuf/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index ad4cc41..d516a52 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -188,6 +188,10 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 		// reference
 		if ref := column.Ref; ref != nil {
 			refTable := t.schema.TableByName(ref.Table)
+			if refTable == nil {
+				log.Printf("referenced table not found: %s", ref.Table)
+				continue
+			}
 			refMessageType := t.messageNameMemoizer(refTable)
 			refName := strcase.ToLowerCamel(refMessageType)
 			repeated := ref.Relationship == octopus.RefOneToMany
-- 
2.43.0


From b4e9379458ef08b3a4b78fbb17eb01e22904c831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:50 +0000
Subject: [PATCH 25/50] fix: render one to many relations of protobuf as
 repeated fields

---
 format/protobuf/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index d516a52..ae325b5 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -116,7 +116,7 @@ message {{.Name}} {
   {{.Type}} {{.Name}} = {{.Tag}};
   {{- end}}
   {{- range .Relations}}
-  {{.Type}} {{.Name}} = {{.Tag}};
+  {{if .Repeated}}repeated {{end}}{{.Type}} {{.Name}} = {{.Tag}};
   {{- end}}
 }
 {{end}}`
-- 
2.43.0


From 1c5444ed1a1097d782cde0e10592c603c69620ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:18 +0000
Subject: [PATCH 26/50] fix: disable an embedded gorm model that is defined
 without columns

---
 format/gorm/gorm_model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/gorm/gorm_model.go b/format/gorm/gorm_model.go
index fd0ff2b..8645291 100644
--- a/format/gorm/gorm_model.go
+++ b/format/gorm/gorm_model.go
@@ -86,7 +86,7 @@ func extractEmbeddedModels(fields []*GoField) EmbeddedModels {
 	result := EmbeddedModels{}
 	for _, name := range embeddedModels.Names() {
 		model := embeddedModels[name]
-		if columnNameSet.ContainsAll(model.ColumnNames) {
+		if len(model.ColumnNames) > 0 && columnNameSet.ContainsAll(model.ColumnNames) {
 			result[name] = model
 			columnNameSet.RemoveAll(model.ColumnNames)
 		}
-- 
2.43.0


From 2226c48e6f0d99700d5194485eb16f4fd7411ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:21 +0000
Subject: [PATCH 27/50] fix: import null.v4 only if a field of the gorm model
 uses it

---
 format/gorm/gorm.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index d66b8c2..f0f2a0f 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -97,9 +97,6 @@ func NewGoField(column *octopus.Column) *GoField {
 	var fieldType string
 	importSet := util.NewStringSet()
 	nullable := !column.NotNull
-	if nullable {
-		importSet.Add("gopkg.in/guregu/null.v4")
-	}
 
 	columnType := strings.ToLower(column.Type)
 	switch columnType {
@@ -200,6 +197,9 @@ func NewGoField(column *octopus.Column) *GoField {
 	default:
 		fieldType = "interface{}"
 	}
+	if strings.HasPrefix(fieldType, "null.") {
+		importSet.Add("gopkg.in/guregu/null.v4")
+	}
 
 	fieldName, ok := util.ToUpperCamel(column.Name)
 	overrideName := !ok
-- 
2.43.0


From f5410e592df76083ab13a4fc74ac4bab802e0094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:51 +0000
Subject: [PATCH 28/50] fix: import Column in every generated sqlalchemy file

---
 format/sqlalchemy/generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 109da63..4a00b89 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -192,6 +192,7 @@ func (c *Generator) Generate(outputPath string) error {
 			// reset slice
 			contents = make([]string, 0)
 			saImportSet.Clear()
+			saImportSet.Add("Column")
 			importSet.Clear()
 		}
 	}
-- 
2.43.0


From cd873edf230ccbb19185b234e46be80a90ee7559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:53 +0000
Subject: [PATCH 29/50] fix: define TZDateTime in every generated sqlalchemy
 file that uses it

---
 format/sqlalchemy/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 4a00b89..1fb077b 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -181,6 +181,9 @@ func (c *Generator) Generate(outputPath string) error {
 			contents = append(contents, classLines...)
 		} else {
 			contents = append(contents, c.getHeaderLines(importSet.Slice(), saImportSet.Slice())...)
+			if useTZDateTime {
+				contents = append(contents, c.getTZDateTimeLines()...)
+			}
 			contents = append(contents, classLines...)
 			contents = append(contents, "")
 
@@ -191,6 +194,7 @@ func (c *Generator) Generate(outputPath string) error {
 
 			// reset slice
 			contents = make([]string, 0)
+			useTZDateTime = false
 			saImportSet.Clear()
 			saImportSet.Add("Column")
 			importSet.Clear()
-- 
2.43.0


From 563c785f623f980427089a661fbe95ea8d793b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 30/50] fix: do not crash on tables without primary key when
 generating kotlin repositories

---
 format/jpa/kotlin-gen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 4c2bcc2..1bd5f36 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -341,6 +341,10 @@ func (c *KtGenerator) generateRepositories(outputPath string) error {
 	}
 
 	for _, class := range classes {
+		if len(class.PKFields) == 0 {
+			log.Printf("repository not generated. %s has no primary key", class.Name)
+			continue
+		}
 		buf := new(bytes.Buffer)
 		if err := c.generateRepository(buf, class, outputPackage, reposPackage); err != nil {
 			return err
-- 
2.43.0


From faf4617c06e48d87042114a8dbd8d85ac2e5a748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:09 +0000
Subject: [PATCH 31/50] fix: name columns, not properties, in kotlin unique
 constraints

---
 format/jpa/kotlin-gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 1bd5f36..37ca9e0 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -230,7 +230,7 @@ data class {{.IdClassName}}(
 	// unique constraint
 	var uniqueFieldNames []string
 	for _, field := range class.UniqueFields {
-		uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Name, "\""))
+		uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Column.Name, "\""))
 	}
 
 	// imports
-- 
2.43.0


From 2123ea66e7dccc3f60d3524b799e5aeba71b78b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:11 +0000
Subject: [PATCH 32/50] fix: name columns, not attributes, in sqlalchemy unique
 constraints

---
 format/sqlalchemy/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 1fb077b..da57c49 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -86,7 +86,7 @@ func (c *Generator) Generate(outputPath string) error {
 		uniqueCstName := table.Name + uniqueNameSuffix
 		var uniqueFieldNames []string
 		for _, field := range class.UniqueFields {
-			uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Name, "'"))
+			uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Column.Name, "'"))
 		}
 
 		// class
-- 
2.43.0


From e74f647e8fc2206d3b42514300e103dd73179411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:13 +0000
Subject: [PATCH 33/50] fix: keep the description of staruml entities

---
 format/staruml/importer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index d036f72..58cccfa 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -92,8 +92,9 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 
 		// Create Table
 		table := &octopus.Table{
-			Name:    erdEntity.Name,
-			Columns: columns,
+			Name:        erdEntity.Name,
+			Columns:     columns,
+			Description: strings.TrimSpace(erdEntity.Documentation),
 		}
 		tables = append(tables, table)
 	}
-- 
2.43.0


From 4c77f9f82cf1fa84f49d8543f960aa0bb4c803b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:16 +0000
Subject: [PATCH 34/50] fix: do not crash on dangling references of staruml
 columns

---
 format/staruml/importer.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index 58cccfa..71ba1b3 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -79,12 +79,7 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 			}
 
 			if erdColumn.ReferenceTo != nil {
-				targetColumn := c.findById(erdColumn.ReferenceTo.Ref)
-				targetTable := c.findById(targetColumn.Parent.Ref)
-				column.Ref = &octopus.Reference{
-					Table:  targetTable.Name,
-					Column: targetColumn.Name,
-				}
+				column.Ref = c.toReference(erdColumn.ReferenceTo.Ref)
 			}
 
 			columns = append(columns, column)
@@ -106,6 +101,23 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 	return &schema, nil
 }
 
+// toReference returns the reference to the column with the given id.
+// returns nil if the column or its table is not found.
+func (c *Importer) toReference(columnId string) *octopus.Reference {
+	targetColumn := c.findById(columnId)
+	if targetColumn == nil || targetColumn.Parent == nil {
+		return nil
+	}
+	targetTable := c.findById(targetColumn.Parent.Ref)
+	if targetTable == nil {
+		return nil
+	}
+	return &octopus.Reference{
+		Table:  targetTable.Name,
+		Column: targetColumn.Name,
+	}
+}
+
 func (c *Importer) findByType(elems []*Element, typ string) []*Element {
 	var result []*Element
 
-- 
2.43.0


From 4b710dc0fd4844b13935015c204767f06fd39778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:18 +0000
Subject: [PATCH 35/50] fix: import the entities of every staruml data model

---
 format/staruml/importer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index 71ba1b3..f41ab84 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -54,7 +54,10 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 		return nil, errors.New("ERDDataModel not found")
 	}
 
-	erdEntities := c.findByType(erdDataModels[0].OwnedElements, "ERDEntity")
+	var erdEntities []*Element
+	for _, erdDataModel := range erdDataModels {
+		erdEntities = append(erdEntities, c.findByType(erdDataModel.OwnedElements, "ERDEntity")...)
+	}
 	var tables []*octopus.Table
 	for _, erdEntity := range erdEntities {
 		// Create Columns
-- 
2.43.0


From 72b53b5265f858478e5b529a940e31ad92456d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:32 +0000
Subject: [PATCH 36/50] fix: keep numeric column lengths of staruml models

---
 util/string.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/string.go b/util/string.go
index da1bcbd..736f414 100644
--- a/util/string.go
+++ b/util/string.go
@@ -18,6 +18,8 @@ func ToInt(value interface{}, defaultValue int) int {
 		return i
 	case int:
 		return value.(int)
+	case float64:
+		return int(value.(float64))
 	default:
 		return defaultValue
 	}
-- 
2.43.0


From f43383671b8ff7149617bc6a35124d0acc096390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:45 +0000
Subject: [PATCH 37/50] fix: keep table comments when importing mysql DDL

---
 format/mysql/importer.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 1f4333d..4a9d86f 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -124,10 +124,19 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 			columns = append(columns, column)
 		}
 
+		// table comment
+		description := ""
+		for _, tableOption := range createTableStmt.Options {
+			if tableOption.Tp == ast.TableOptionComment {
+				description = tableOption.StrValue
+			}
+		}
+
 		table := &octopus.Table{
-			Name:    tableName,
-			Columns: columns,
-			Indices: indices,
+			Name:        tableName,
+			Columns:     columns,
+			Description: description,
+			Indices:     indices,
 		}
 		x.tables = append(x.tables, table)
 		return in, true
-- 
2.43.0


From 1363771a9599248f600c40e03cd1368538a3753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:47 +0000
Subject: [PATCH 38/50] fix: columns of a PRIMARY KEY table constraint are not
 null

---
 format/mysql/importer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 4a9d86f..4eec772 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -162,7 +162,7 @@ func (x *TableX) column(
 		Scale:      colScale,
 		PrimaryKey: pkSet.Contains(name),
 		UniqueKey:  uniqSet.Contains(name),
-		NotNull:    false,
+		NotNull:    pkSet.Contains(name),
 		Values:     x.columnValues(colType, colDef),
 	}
 
-- 
2.43.0


From 110e92abe54687cd2c643d7db97bb2814c52c0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:50 +0000
Subject: [PATCH 39/50] fix: keep signed default values when importing mysql
 DDL

---
 format/mysql/importer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 4eec772..dd9e48f 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -8,6 +8,7 @@ import (
 	"github.com/pingcap/parser"
 	"github.com/pingcap/parser/ast"
 	"github.com/pingcap/parser/mysql"
+	"github.com/pingcap/parser/opcode"
 	_ "github.com/pingcap/parser/test_driver"
 	"io"
 	"io/ioutil"
@@ -182,6 +183,15 @@ func (x *TableX) column(
 				column.SetDefaultValue(colOption.Expr.(ast.ValueExpr).GetValue())
 			case *ast.FuncCallExpr:
 				column.SetDefaultValueFn(colOption.Expr.(*ast.FuncCallExpr).FnName.String())
+			case *ast.UnaryOperationExpr:
+				expr := colOption.Expr.(*ast.UnaryOperationExpr)
+				if valueExpr, ok := expr.V.(ast.ValueExpr); ok && expr.Op == opcode.Minus {
+					column.SetDefaultValue(fmt.Sprintf("-%v", valueExpr.GetValue()))
+				} else if ok && expr.Op == opcode.Plus {
+					column.SetDefaultValue(valueExpr.GetValue())
+				} else {
+					fmt.Printf("unhandled default value. column: %s, expr: %v", name, colOption.Expr)
+				}
 			default:
 				fmt.Printf("unhandled default value. column: %s, expr: %v", name, colOption.Expr)
 			}
-- 
2.43.0


From b62751e72882163db7059cbf66bd1aa87944df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:05 +0000
Subject: [PATCH 40/50] fix: distinguish binary and character columns by
 charset in mysql DDL

---
 format/mysql/importer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index dd9e48f..bd435e2 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -7,6 +7,7 @@ import (
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"github.com/pingcap/parser"
 	"github.com/pingcap/parser/ast"
+	"github.com/pingcap/parser/charset"
 	"github.com/pingcap/parser/mysql"
 	"github.com/pingcap/parser/opcode"
 	_ "github.com/pingcap/parser/test_driver"
@@ -285,6 +286,9 @@ func (x *TableX) columnType(colDef *ast.ColumnDef) (string, uint16, uint16) {
 	case mysql.TypeNewDate:
 		return octopus.ColTypeDate, 0, 0
 	case mysql.TypeVarchar:
+		if colDef.Tp.Charset == charset.CharsetBin {
+			return octopus.ColTypeVarbinary, size, 0
+		}
 		return octopus.ColTypeVarchar, size, 0
 	case mysql.TypeBit:
 		if colDef.Tp.Flen == 1 {
@@ -325,7 +329,7 @@ func (x *TableX) columnType(colDef *ast.ColumnDef) (string, uint16, uint16) {
 			return octopus.ColTypeBlob16, 0, 0
 		}
 	case mysql.TypeString:
-		if colDef.Tp.Flag == mysql.BinaryFlag {
+		if colDef.Tp.Charset == charset.CharsetBin {
 			return octopus.ColTypeBinary, size, 0
 		}
 		return octopus.ColTypeChar, size, 0
-- 
2.43.0


From c69327b485a12a666dfb1c740fa541ad6fe653c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:46 +0000
Subject: [PATCH 41/50] fix: import inline UNIQUE columns of mysql DDL

---
 format/mysql/importer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index bd435e2..ded3d03 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -178,6 +178,8 @@ func (x *TableX) column(
 		case ast.ColumnOptionAutoIncrement:
 			column.AutoIncremental = true
 			column.NotNull = true
+		case ast.ColumnOptionUniqKey:
+			column.UniqueKey = true
 		case ast.ColumnOptionDefaultValue:
 			switch colOption.Expr.(type) {
 			case ast.ValueExpr:
-- 
2.43.0


From 7fdf6cd7602f32968d4d8b9ae1db37302fadab68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:03 +0000
Subject: [PATCH 42/50] fix: do not crash on expression indexes of mysql DDL

---
 format/mysql/importer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index ded3d03..a9ce26b 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -98,13 +98,22 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 			case ast.ConstraintIndex:
 				var idxCols []string
 				for _, key := range cst.Keys {
+					// index on expression has no column
+					if key.Column == nil {
+						idxCols = nil
+						break
+					}
 					idxCols = append(idxCols, key.Column.Name.String())
 				}
-				indices = append(indices, &octopus.Index{Name: cst.Name, Columns: idxCols})
+				if len(idxCols) > 0 {
+					indices = append(indices, &octopus.Index{Name: cst.Name, Columns: idxCols})
+				}
 				break
 			case ast.ConstraintUniq:
 				for _, key := range cst.Keys {
-					uniqSet.Add(key.Column.Name.String())
+					if key.Column != nil {
+						uniqSet.Add(key.Column.Name.String())
+					}
 				}
 			case ast.ConstraintUniqKey:
 				break
-- 
2.43.0


From 322ebf6643af9f9dbee89366097fbb6a173ee50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:11 +0000
Subject: [PATCH 43/50] fix: treat async and await as reserved words of python

---
 util/python.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/python.go b/util/python.go
index d3e50b1..6aab77c 100644
--- a/util/python.go
+++ b/util/python.go
@@ -4,6 +4,8 @@ var pythonReservedWords = [...]string{
 	"and",
 	"as",
 	"assert",
+	"async",
+	"await",
 	"break",
 	"class",
 	"continue",
-- 
2.43.0


From 6f52114f687f4893127090b27c0e49c7654dac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:14 +0000
Subject: [PATCH 44/50] fix: do not write an empty default value for kotlin
 properties

---
 format/jpa/kotlin-gen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 37ca9e0..a82f8f6 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -177,7 +177,7 @@ data class {{.Class.Name}}(
 		{{- if eq . $.IdEntityField}}
         override var {{.Name}}: {{.Type}} = {{.DefaultValue}},
 		{{- else}}
-        var {{.Name}}: {{.Type}} = {{.DefaultValue}}{{if hasNext . $.Class.Fields}},{{end}}
+        var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.Fields}},{{end}}
 		{{- end}}
     {{- else}}
         var {{.Name}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
@@ -192,7 +192,7 @@ data class {{.Class.Name}}(
 {{- if ne .IdClassName ""}}
 data class {{.IdClassName}}(
 {{- range .Class.PKFields}}
-        var {{.Name}}: {{.Type}} = {{.DefaultValue}}{{if hasNext . $.Class.PKFields}},{{end}}
+        var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.PKFields}},{{end}}
 {{- end}}
 ): Serializable
 {{- end}}
-- 
2.43.0


From 28a62418392536c98cc8222cc0bb2f642c182779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:17 +0000
Subject: [PATCH 45/50] fix: leave out the package of kotlin sources when no
 package is given

---
 format/jpa/kotlin-gen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index a82f8f6..69418c9 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -149,9 +149,9 @@ func (c *KtGenerator) GenerateEntityClass(
 
 	// template
 	tplText := `{{"" -}}
-package {{.Package}}
+{{if .Package}}package {{.Package}}
 
-{{range .Imports}}import {{.}}
+{{end}}{{range .Imports}}import {{.}}
 {{end}}
 {{range .JavaImports}}import {{.}}
 {{end}}
@@ -378,8 +378,8 @@ func (c *KtGenerator) generateRepository(
 	tplString := `{{"" -}}
 package {{.ReposPackage}}
 
-import {{.EntityPackage}}.*
-import org.springframework.data.jpa.repository.JpaRepository
+{{if .EntityPackage}}import {{.EntityPackage}}.*
+{{end}}import org.springframework.data.jpa.repository.JpaRepository
 import org.springframework.stereotype.Repository
 
 @Repository
-- 
2.43.0


From 31c0c3c24771de4518d54b65c8a2c3ffc37b6f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:37 +0000
Subject: [PATCH 46/50] fix: do not write an empty default value for the id
 property of kotlin entities

---
 format/jpa/kotlin-gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 69418c9..7af7c03 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -175,7 +175,7 @@ data class {{.Class.Name}}(
     {{end}}
     {{- if .Column.NotNull}}
 		{{- if eq . $.IdEntityField}}
-        override var {{.Name}}: {{.Type}} = {{.DefaultValue}},
+        override var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}},
 		{{- else}}
         var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.Fields}},{{end}}
 		{{- end}}
-- 
2.43.0


From af34645e75da366288eca018e57e12f74654768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:21 +0000
Subject: [PATCH 47/50] fix: write default functions as computed default values
 in liquibase changelogs

---
 format/liquibase/generator.go | 65 +++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index fd59005..faaa98f 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -307,13 +307,14 @@ func newAddAutoIncrement(table *octopus.Table, column *octopus.Column) *LqAddAut
 }
 
 type LqAddDefaultValue struct {
-	TableName           string      `yaml:"tableName"`
-	ColumnName          string      `yaml:"columnName"`
-	ColumnDataType      string      `yaml:"columnDataType,omitempty"`
-	DefaultValue        string      `yaml:"defaultValue,omitempty"`
-	DefaultValueBoolean *bool       `yaml:"defaultValueBoolean,omitempty"`
-	DefaultValueNumeric interface{} `yaml:"defaultValueNumeric,omitempty"`
-	DefaultValueDate    string      `yaml:"defaultValueDate,omitempty"`
+	TableName            string      `yaml:"tableName"`
+	ColumnName           string      `yaml:"columnName"`
+	ColumnDataType       string      `yaml:"columnDataType,omitempty"`
+	DefaultValue         string      `yaml:"defaultValue,omitempty"`
+	DefaultValueBoolean  *bool       `yaml:"defaultValueBoolean,omitempty"`
+	DefaultValueComputed string      `yaml:"defaultValueComputed,omitempty"`
+	DefaultValueNumeric  interface{} `yaml:"defaultValueNumeric,omitempty"`
+	DefaultValueDate     string      `yaml:"defaultValueDate,omitempty"`
 }
 
 func newAddDefaultValue(table *octopus.Table, column *octopus.Column) (*LqAddDefaultValue, error) {
@@ -321,13 +322,14 @@ func newAddDefaultValue(table *octopus.Table, column *octopus.Column) (*LqAddDef
 		return nil, err
 	} else {
 		return &LqAddDefaultValue{
-			TableName:           table.Name,
-			ColumnName:          column.Name,
-			ColumnDataType:      getLiquibaseType(column),
-			DefaultValue:        dv.DefaultValue,
-			DefaultValueBoolean: dv.DefaultValueBoolean,
-			DefaultValueNumeric: dv.DefaultValueNumeric,
-			DefaultValueDate:    dv.DefaultValueDate,
+			TableName:            table.Name,
+			ColumnName:           column.Name,
+			ColumnDataType:       getLiquibaseType(column),
+			DefaultValue:         dv.DefaultValue,
+			DefaultValueBoolean:  dv.DefaultValueBoolean,
+			DefaultValueComputed: dv.DefaultValueComputed,
+			DefaultValueNumeric:  dv.DefaultValueNumeric,
+			DefaultValueDate:     dv.DefaultValueDate,
 		}, nil
 	}
 }
@@ -399,16 +401,19 @@ func newDropUniqueConstraint(table *octopus.Table, uniqueConstraintName string)
 // ----------------------------------------------------------------------------
 
 type LqDefaultValue struct {
-	DefaultValue        string      `yaml:"defaultValue,omitempty"`
-	DefaultValueBoolean *bool       `yaml:"defaultValueBoolean,omitempty"`
-	DefaultValueNumeric interface{} `yaml:"defaultValueNumeric,omitempty"`
-	DefaultValueDate    string      `yaml:"defaultValueDate,omitempty"`
+	DefaultValue         string      `yaml:"defaultValue,omitempty"`
+	DefaultValueBoolean  *bool       `yaml:"defaultValueBoolean,omitempty"`
+	DefaultValueComputed string      `yaml:"defaultValueComputed,omitempty"`
+	DefaultValueNumeric  interface{} `yaml:"defaultValueNumeric,omitempty"`
+	DefaultValueDate     string      `yaml:"defaultValueDate,omitempty"`
 }
 
 func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 	result := LqDefaultValue{}
 
-	if util.IsStringType(column.Type) {
+	if value, fn := column.GetDefaultValue(); fn {
+		result.DefaultValueComputed = value
+	} else if util.IsStringType(column.Type) {
 		result.DefaultValue = column.DefaultValue
 	} else if util.IsBooleanType(column.Type) {
 		result.DefaultValueBoolean = NewBool(column.DefaultValue == "true")
@@ -436,16 +441,17 @@ func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 }
 
 type LqColumn struct {
-	Name                string         `yaml:"name"`
-	Type                string         `yaml:"type"`
-	AutoIncrement       *bool          `yaml:"autoIncrement,omitempty"`
-	Constraints         *LqConstraints `yaml:"constraints,omitempty"`
-	Remarks             string         `yaml:"remarks,omitempty"`
-	DefaultValue        string         `yaml:"defaultValue,omitempty"`
-	DefaultValueBoolean *bool          `yaml:"defaultValueBoolean,omitempty"`
-	DefaultValueNumeric interface{}    `yaml:"defaultValueNumeric,omitempty"`
-	DefaultValueDate    string         `yaml:"defaultValueDate,omitempty"`
-	AfterColumn         string         `yaml:"afterColumn,omitempty"`
+	Name                 string         `yaml:"name"`
+	Type                 string         `yaml:"type"`
+	AutoIncrement        *bool          `yaml:"autoIncrement,omitempty"`
+	Constraints          *LqConstraints `yaml:"constraints,omitempty"`
+	Remarks              string         `yaml:"remarks,omitempty"`
+	DefaultValue         string         `yaml:"defaultValue,omitempty"`
+	DefaultValueBoolean  *bool          `yaml:"defaultValueBoolean,omitempty"`
+	DefaultValueComputed string         `yaml:"defaultValueComputed,omitempty"`
+	DefaultValueNumeric  interface{}    `yaml:"defaultValueNumeric,omitempty"`
+	DefaultValueDate     string         `yaml:"defaultValueDate,omitempty"`
+	AfterColumn          string         `yaml:"afterColumn,omitempty"`
 }
 
 func newLqColumn(column *octopus.Column, createSeparatePK bool, createSeparateUq bool) (*LqColumn, error) {
@@ -485,6 +491,7 @@ func newLqColumn(column *octopus.Column, createSeparatePK bool, createSeparateUq
 		} else {
 			lc.DefaultValue = dv.DefaultValue
 			lc.DefaultValueBoolean = dv.DefaultValueBoolean
+			lc.DefaultValueComputed = dv.DefaultValueComputed
 			lc.DefaultValueNumeric = dv.DefaultValueNumeric
 			lc.DefaultValueDate = dv.DefaultValueDate
 		}
-- 
2.43.0


From 3e650fe2aacec768dbbcc575f0dde5a0dc2e6722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:47 +0000
Subject: [PATCH 48/50] fix: write the members of enum and set columns in
 liquibase changelogs

---
 format/liquibase/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index faaa98f..d2e572e 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -611,6 +611,10 @@ func getLiquibaseType(column *octopus.Column) string {
 		fallthrough
 	case octopus.ColTypeBlob32:
 		typ = "blob"
+	case octopus.ColTypeEnum:
+		return "enum(" + util.QuoteAndJoin(column.Values, "'", ", ") + ")"
+	case octopus.ColTypeSet:
+		return "set(" + util.QuoteAndJoin(column.Values, "'", ", ") + ")"
 	default:
 		typ = column.Type
 	}
-- 
2.43.0


From a70af135d0a684f5578b9d7b6c75cab9cfe7c844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:02 +0000
Subject: [PATCH 49/50] fix: report changed enum and set members in schema
 diffs

---
 format/diff/diff.go      |  2 +-
 format/diff/markdown.go  | 11 ++++++++++-
 format/liquibase/diff.go |  2 +-
 format/octopus/column.go | 20 +++++++++++++++++---
 4 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 4c99ee2..8acb93a 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -301,7 +301,7 @@ func diffColumn(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	if column.Type != oldColumn.Type || column.Size != oldColumn.Size || column.Scale != oldColumn.Scale {
+	if !column.HasSameType(oldColumn) {
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
 		changeSet.Add(&ChangeColumnType{Table: table, OldColumn: oldColumn, NewColumn: column})
 		changeSets = append(changeSets, changeSet)
diff --git a/format/diff/markdown.go b/format/diff/markdown.go
index ebc8aa0..bc75e00 100644
--- a/format/diff/markdown.go
+++ b/format/diff/markdown.go
@@ -2,6 +2,7 @@ package diff
 
 import (
 	"fmt"
+	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"io"
 	"reflect"
@@ -201,7 +202,15 @@ func (w *MarkdownChangeSetWriter) toSetColumnCommentMD(c *SetColumnComment) (str
 
 func (w *MarkdownChangeSetWriter) toChangeColumnTypeMD(c *ChangeColumnType) (string, error) {
 	return fmt.Sprintf("change column type: `%s` :`%s` → `%s`",
-		c.NewColumn.Name, c.OldColumn.Format(), c.NewColumn.Format()), nil
+		c.NewColumn.Name, formatColumnType(c.OldColumn), formatColumnType(c.NewColumn)), nil
+}
+
+// formatColumnType returns the type of a column with its size, scale and permitted values.
+func formatColumnType(column *octopus.Column) string {
+	if len(column.Values) > 0 {
+		return column.Format() + "(" + util.QuoteAndJoin(column.Values, "'", ", ") + ")"
+	}
+	return column.Format()
 }
 
 func (w *MarkdownChangeSetWriter) toRenameColumnMD(c *RenameColumn) (string, error) {
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index a938c4e..50ffdb0 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -327,7 +327,7 @@ func (c *Diff) diffColumn(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	if column.Type != oldColumn.Type || column.Size != oldColumn.Size || column.Scale != oldColumn.Scale {
+	if !column.HasSameType(oldColumn) {
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("modifyDataType", newModifyDataType(table, column))
 		changeSets = append(changeSets, changeSet)
diff --git a/format/octopus/column.go b/format/octopus/column.go
index 8aae547..184452b 100644
--- a/format/octopus/column.go
+++ b/format/octopus/column.go
@@ -84,11 +84,25 @@ func (c *Column) toNormalizedType(colType string) string {
 	return colType
 }
 
+// HasSameType returns whether the type, size, scale and permitted values are equal.
+func (c *Column) HasSameType(target *Column) bool {
+	if c.Type != target.Type || c.Size != target.Size || c.Scale != target.Scale {
+		return false
+	}
+	if len(c.Values) != len(target.Values) {
+		return false
+	}
+	for i, value := range c.Values {
+		if value != target.Values[i] {
+			return false
+		}
+	}
+	return true
+}
+
 func (c *Column) IsRenamed(target *Column, excludeDescription bool) bool {
-	return c.Type == target.Type &&
+	return c.HasSameType(target) &&
 		(excludeDescription || (c.Description == target.Description)) &&
-		c.Size == target.Size &&
-		c.Scale == target.Scale &&
 		c.NotNull == target.NotNull &&
 		c.PrimaryKey == target.PrimaryKey &&
 		c.UniqueKey == target.UniqueKey &&
-- 
2.43.0


From 795c04a6cf1191f160f5130c7f1d1f849b2986ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:13 +0000
Subject: [PATCH 50/50] fix: do not replace null values with the text of a
 default function in liquibase diffs

---
 format/liquibase/generator.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index d2e572e..93e1dbc 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -270,12 +270,16 @@ type LqAddNotNullConstraint struct {
 }
 
 func newAddNotNullConstraint(table *octopus.Table, column *octopus.Column) *LqAddNotNullConstraint {
-	return &LqAddNotNullConstraint{
-		TableName:        table.Name,
-		ColumnName:       column.Name,
-		ColumnDataType:   getLiquibaseType(column),
-		DefaultNullValue: column.DefaultValue,
+	result := LqAddNotNullConstraint{
+		TableName:      table.Name,
+		ColumnName:     column.Name,
+		ColumnDataType: getLiquibaseType(column),
 	}
+	// a function call cannot be the value of existing null columns.
+	if value, fn := column.GetDefaultValue(); !fn {
+		result.DefaultNullValue = value
+	}
+	return &result
 }
 
 type LqDropNotNullConstraint struct {
-- 
2.43.0

