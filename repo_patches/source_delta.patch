From 124c8e7b7242f4f3f6eea1f8246a688000329aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:30 +0000
Subject: [PATCH 01/69] fix: order the statements of a diff so that they can be
 executed: indexes are dropped before tables and altered columns, referencing
 tables before referenced ones, and indexes created after columns are added

---
 pkg/ddl/cockroachdb/diff.go | 36 +++++++++++++++++++++++++------
 pkg/ddl/mysql/diff.go       | 36 +++++++++++++++++++++++++------
 pkg/ddl/postgres/diff.go    | 36 +++++++++++++++++++++++++------
 pkg/ddl/spanner/diff.go     | 43 ++++++++++++++++++++++++++++++-------
 4 files changed, 122 insertions(+), 29 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index 5610efa..4300f3a 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -39,13 +39,15 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
-	// DROP TABLE table_name;
+	// DROP INDEX index_name;
+	// DROP TABLE table_name; MEMO: after the indexes, referencing tables before the tables they refer to.
+	dropTableStmts := make([]Stmt, 0)
 	for _, stmt := range onlyLeftStmt(before, after) {
 		switch beforeStmt := stmt.(type) {
 		case *CreateTableStmt:
-			result.Stmts = append(result.Stmts, &DropTableStmt{
+			dropTableStmts = append([]Stmt{&DropTableStmt{
 				Name: beforeStmt.Name,
-			})
+			}}, dropTableStmts...)
 		case *CreateIndexStmt:
 			result.Stmts = append(result.Stmts, &DropIndexStmt{
 				Name: beforeStmt.Name,
@@ -55,20 +57,28 @@ func Diff(before, after *DDL) (*DDL, error) {
 		}
 	}
 
+	result.Stmts = append(result.Stmts, dropTableStmts...)
+
 	// CREATE TABLE table_name
+	// CREATE INDEX index_name ... MEMO: an index of an existing table may use a column that is yet to be added.
+	createIndexStmts := make([]Stmt, 0)
 	for _, stmt := range onlyLeftStmt(after, before) {
 		switch afterStmt := stmt.(type) {
 		case *CreateTableStmt:
 			result.Stmts = append(result.Stmts, afterStmt)
 		case *CreateIndexStmt:
+			if findCreateTableStmtByTableName(afterStmt.TableName, before.Stmts) != nil {
+				createIndexStmts = append(createIndexStmts, afterStmt)
+				continue
+			}
 			result.Stmts = append(result.Stmts, afterStmt)
 		default:
 			return nil, apperr.Errorf("%s: %T: %w", afterStmt.GetNameForDiff(), afterStmt, ddl.ErrNotSupported)
 		}
 	}
 
-	// ALTER TABLE table_name ...
-	// DROP INDEX index_name; CREATE INDEX index_name ...
+	// DROP INDEX index_name; ALTER TABLE table_name ...; CREATE INDEX index_name ...
+	alterStmts := make([]Stmt, 0)
 	for _, beforeStmt := range before.Stmts {
 		switch beforeStmt := beforeStmt.(type) { //nolint:gocritic
 		case *CreateTableStmt:
@@ -76,7 +86,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				afterStmt := afterStmt.(*CreateTableStmt) //nolint:forcetypeassert
 				alterStmt, err := DiffCreateTable(beforeStmt, afterStmt)
 				if err == nil {
-					result.Stmts = append(result.Stmts, alterStmt.Stmts...)
+					alterStmts = append(alterStmts, alterStmt.Stmts...)
 				}
 				errorz.PanicOrIgnore(err, ddl.ErrNoDifference) // MEMO: If before and after table_name is match, DiffCreateTable does not return error except ddl.ErrNoDifference.
 				continue
@@ -90,13 +100,16 @@ func Diff(before, after *DDL) (*DDL, error) {
 							Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
 							Name:    beforeStmt.Name,
 						},
-						afterStmt,
 					)
+					createIndexStmts = append(createIndexStmts, afterStmt)
 				}
 			}
 		}
 	}
 
+	result.Stmts = append(result.Stmts, alterStmts...)
+	result.Stmts = append(result.Stmts, createIndexStmts...)
+
 	if len(result.Stmts) == 0 {
 		return nil, ddl.ErrNoDifference
 	}
@@ -124,3 +137,12 @@ func findStmtByTypeAndName(stmt Stmt, stmts []Stmt) Stmt { //nolint:ireturn
 	}
 	return nil
 }
+
+func findCreateTableStmtByTableName(tableName *ObjectName, stmts []Stmt) *CreateTableStmt {
+	for _, s := range stmts {
+		if createTableStmt, ok := s.(*CreateTableStmt); ok && createTableStmt.Name.StringForDiff() == tableName.StringForDiff() {
+			return createTableStmt
+		}
+	}
+	return nil
+}
diff --git a/pkg/ddl/mysql/diff.go b/pkg/ddl/mysql/diff.go
index 5df42d8..5f2e024 100644
--- a/pkg/ddl/mysql/diff.go
+++ b/pkg/ddl/mysql/diff.go
@@ -39,13 +39,15 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
-	// DROP TABLE table_name;
+	// DROP INDEX index_name;
+	// DROP TABLE table_name; MEMO: after the indexes, referencing tables before the tables they refer to.
+	dropTableStmts := make([]Stmt, 0)
 	for _, stmt := range onlyLeftStmt(before, after) {
 		switch beforeStmt := stmt.(type) {
 		case *CreateTableStmt:
-			result.Stmts = append(result.Stmts, &DropTableStmt{
+			dropTableStmts = append([]Stmt{&DropTableStmt{
 				Name: beforeStmt.Name,
-			})
+			}}, dropTableStmts...)
 		case *CreateIndexStmt:
 			result.Stmts = append(result.Stmts, &DropIndexStmt{
 				Name: beforeStmt.Name,
@@ -55,20 +57,28 @@ func Diff(before, after *DDL) (*DDL, error) {
 		}
 	}
 
+	result.Stmts = append(result.Stmts, dropTableStmts...)
+
 	// CREATE TABLE table_name
+	// CREATE INDEX index_name ... MEMO: an index of an existing table may use a column that is yet to be added.
+	createIndexStmts := make([]Stmt, 0)
 	for _, stmt := range onlyLeftStmt(after, before) {
 		switch afterStmt := stmt.(type) {
 		case *CreateTableStmt:
 			result.Stmts = append(result.Stmts, afterStmt)
 		case *CreateIndexStmt:
+			if findCreateTableStmtByTableName(afterStmt.TableName, before.Stmts) != nil {
+				createIndexStmts = append(createIndexStmts, afterStmt)
+				continue
+			}
 			result.Stmts = append(result.Stmts, afterStmt)
 		default:
 			return nil, apperr.Errorf("%s: %T: %w", afterStmt.GetNameForDiff(), afterStmt, ddl.ErrNotSupported)
 		}
 	}
 
-	// ALTER TABLE table_name ...
-	// DROP INDEX index_name; CREATE INDEX index_name ...
+	// DROP INDEX index_name; ALTER TABLE table_name ...; CREATE INDEX index_name ...
+	alterStmts := make([]Stmt, 0)
 	for _, beforeStmt := range before.Stmts {
 		switch beforeStmt := beforeStmt.(type) { //nolint:gocritic
 		case *CreateTableStmt:
@@ -76,7 +86,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				afterStmt := afterStmt.(*CreateTableStmt) //nolint:forcetypeassert
 				alterStmt, err := DiffCreateTable(beforeStmt, afterStmt)
 				if err == nil {
-					result.Stmts = append(result.Stmts, alterStmt.Stmts...)
+					alterStmts = append(alterStmts, alterStmt.Stmts...)
 				}
 				errorz.PanicOrIgnore(err, ddl.ErrNoDifference) // MEMO: If before and after table_name is match, DiffCreateTable does not return error except ddl.ErrNoDifference.
 				continue
@@ -90,13 +100,16 @@ func Diff(before, after *DDL) (*DDL, error) {
 							Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
 							Name:    beforeStmt.Name,
 						},
-						afterStmt,
 					)
+					createIndexStmts = append(createIndexStmts, afterStmt)
 				}
 			}
 		}
 	}
 
+	result.Stmts = append(result.Stmts, alterStmts...)
+	result.Stmts = append(result.Stmts, createIndexStmts...)
+
 	if len(result.Stmts) == 0 {
 		return nil, ddl.ErrNoDifference
 	}
@@ -124,3 +137,12 @@ func findStmtByTypeAndName(stmt Stmt, stmts []Stmt) Stmt { //nolint:ireturn
 	}
 	return nil
 }
+
+func findCreateTableStmtByTableName(tableName *ObjectName, stmts []Stmt) *CreateTableStmt {
+	for _, s := range stmts {
+		if createTableStmt, ok := s.(*CreateTableStmt); ok && createTableStmt.Name.StringForDiff() == tableName.StringForDiff() {
+			return createTableStmt
+		}
+	}
+	return nil
+}
diff --git a/pkg/ddl/postgres/diff.go b/pkg/ddl/postgres/diff.go
index 8db9540..488f49e 100644
--- a/pkg/ddl/postgres/diff.go
+++ b/pkg/ddl/postgres/diff.go
@@ -39,13 +39,15 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
-	// DROP TABLE table_name;
+	// DROP INDEX index_name;
+	// DROP TABLE table_name; MEMO: after the indexes, referencing tables before the tables they refer to.
+	dropTableStmts := make([]Stmt, 0)
 	for _, stmt := range onlyLeftStmt(before, after) {
 		switch beforeStmt := stmt.(type) {
 		case *CreateTableStmt:
-			result.Stmts = append(result.Stmts, &DropTableStmt{
+			dropTableStmts = append([]Stmt{&DropTableStmt{
 				Name: beforeStmt.Name,
-			})
+			}}, dropTableStmts...)
 		case *CreateIndexStmt:
 			result.Stmts = append(result.Stmts, &DropIndexStmt{
 				Name: beforeStmt.Name,
@@ -55,20 +57,28 @@ func Diff(before, after *DDL) (*DDL, error) {
 		}
 	}
 
+	result.Stmts = append(result.Stmts, dropTableStmts...)
+
 	// CREATE TABLE table_name
+	// CREATE INDEX index_name ... MEMO: an index of an existing table may use a column that is yet to be added.
+	createIndexStmts := make([]Stmt, 0)
 	for _, stmt := range onlyLeftStmt(after, before) {
 		switch afterStmt := stmt.(type) {
 		case *CreateTableStmt:
 			result.Stmts = append(result.Stmts, afterStmt)
 		case *CreateIndexStmt:
+			if findCreateTableStmtByTableName(afterStmt.TableName, before.Stmts) != nil {
+				createIndexStmts = append(createIndexStmts, afterStmt)
+				continue
+			}
 			result.Stmts = append(result.Stmts, afterStmt)
 		default:
 			return nil, apperr.Errorf("%s: %T: %w", afterStmt.GetNameForDiff(), afterStmt, ddl.ErrNotSupported)
 		}
 	}
 
-	// ALTER TABLE table_name ...
-	// DROP INDEX index_name; CREATE INDEX index_name ...
+	// DROP INDEX index_name; ALTER TABLE table_name ...; CREATE INDEX index_name ...
+	alterStmts := make([]Stmt, 0)
 	for _, beforeStmt := range before.Stmts {
 		switch beforeStmt := beforeStmt.(type) { //nolint:gocritic
 		case *CreateTableStmt:
@@ -76,7 +86,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				afterStmt := afterStmt.(*CreateTableStmt) //nolint:forcetypeassert
 				alterStmt, err := DiffCreateTable(beforeStmt, afterStmt)
 				if err == nil {
-					result.Stmts = append(result.Stmts, alterStmt.Stmts...)
+					alterStmts = append(alterStmts, alterStmt.Stmts...)
 				}
 				errorz.PanicOrIgnore(err, ddl.ErrNoDifference) // MEMO: If before and after table_name is match, DiffCreateTable does not return error except ddl.ErrNoDifference.
 				continue
@@ -90,13 +100,16 @@ func Diff(before, after *DDL) (*DDL, error) {
 							Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
 							Name:    beforeStmt.Name,
 						},
-						afterStmt,
 					)
+					createIndexStmts = append(createIndexStmts, afterStmt)
 				}
 			}
 		}
 	}
 
+	result.Stmts = append(result.Stmts, alterStmts...)
+	result.Stmts = append(result.Stmts, createIndexStmts...)
+
 	if len(result.Stmts) == 0 {
 		return nil, ddl.ErrNoDifference
 	}
@@ -124,3 +137,12 @@ func findStmtByTypeAndName(stmt Stmt, stmts []Stmt) Stmt { //nolint:ireturn
 	}
 	return nil
 }
+
+func findCreateTableStmtByTableName(tableName *ObjectName, stmts []Stmt) *CreateTableStmt {
+	for _, s := range stmts {
+		if createTableStmt, ok := s.(*CreateTableStmt); ok && createTableStmt.Name.StringForDiff() == tableName.StringForDiff() {
+			return createTableStmt
+		}
+	}
+	return nil
+}
diff --git a/pkg/ddl/spanner/diff.go b/pkg/ddl/spanner/diff.go
index e960104..0cbaf04 100644
--- a/pkg/ddl/spanner/diff.go
+++ b/pkg/ddl/spanner/diff.go
@@ -39,13 +39,15 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
-	// DROP TABLE table_name;
+	// DROP INDEX index_name;
+	// DROP TABLE table_name; MEMO: after the indexes, referencing tables before the tables they refer to.
+	dropTableStmts := make([]Stmt, 0)
 	for _, stmt := range onlyLeftStmt(before, after) {
 		switch beforeStmt := stmt.(type) {
 		case *CreateTableStmt:
-			result.Stmts = append(result.Stmts, &DropTableStmt{
+			dropTableStmts = append([]Stmt{&DropTableStmt{
 				Name: beforeStmt.Name,
-			})
+			}}, dropTableStmts...)
 		case *CreateIndexStmt:
 			result.Stmts = append(result.Stmts, &DropIndexStmt{
 				Name: beforeStmt.Name,
@@ -55,20 +57,29 @@ func Diff(before, after *DDL) (*DDL, error) {
 		}
 	}
 
+	result.Stmts = append(result.Stmts, dropTableStmts...)
+
 	// CREATE TABLE table_name
+	// CREATE INDEX index_name ... MEMO: an index of an existing table may use a column that is yet to be added.
+	createIndexStmts := make([]Stmt, 0)
 	for _, stmt := range onlyLeftStmt(after, before) {
 		switch afterStmt := stmt.(type) {
 		case *CreateTableStmt:
 			result.Stmts = append(result.Stmts, afterStmt)
 		case *CreateIndexStmt:
+			if findCreateTableStmtByTableName(afterStmt.TableName, before.Stmts) != nil {
+				createIndexStmts = append(createIndexStmts, afterStmt)
+				continue
+			}
 			result.Stmts = append(result.Stmts, afterStmt)
 		default:
 			return nil, apperr.Errorf("%s: %T: %w", afterStmt.GetNameForDiff(), afterStmt, ddl.ErrNotSupported)
 		}
 	}
 
-	// ALTER TABLE table_name ...
-	// DROP INDEX index_name; CREATE INDEX index_name ...
+	// DROP INDEX index_name; ALTER TABLE table_name ...; CREATE INDEX index_name ...
+	alterStmts := make([]Stmt, 0)
+	recreatedTables := make([]Stmt, 0)
 	for _, beforeStmt := range before.Stmts {
 		switch beforeStmt := beforeStmt.(type) { //nolint:gocritic
 		case *CreateTableStmt:
@@ -76,7 +87,10 @@ func Diff(before, after *DDL) (*DDL, error) {
 				afterStmt := afterStmt.(*CreateTableStmt) //nolint:forcetypeassert
 				alterStmt, err := DiffCreateTable(beforeStmt, afterStmt)
 				if err == nil {
-					result.Stmts = append(result.Stmts, alterStmt.Stmts...)
+					alterStmts = append(alterStmts, alterStmt.Stmts...)
+					if _, recreate := alterStmt.Stmts[0].(*DropTableStmt); recreate {
+						recreatedTables = append(recreatedTables, beforeStmt)
+					}
 				}
 				errorz.PanicOrIgnore(err, ddl.ErrNoDifference) // MEMO: If before and after table_name is match, DiffCreateTable does not return error except ddl.ErrNoDifference.
 				continue
@@ -84,19 +98,23 @@ func Diff(before, after *DDL) (*DDL, error) {
 		case *CreateIndexStmt:
 			if afterStmt := findStmtByTypeAndName(beforeStmt, after.Stmts); afterStmt != nil {
 				afterStmt := afterStmt.(*CreateIndexStmt) //nolint:forcetypeassert
-				if beforeStmt.StringForDiff() != afterStmt.StringForDiff() {
+				// MEMO: a table with indexes cannot be dropped, so the indexes of a table to be recreated are recreated too.
+				if beforeStmt.StringForDiff() != afterStmt.StringForDiff() || findCreateTableStmtByTableName(beforeStmt.TableName, recreatedTables) != nil {
 					result.Stmts = append(result.Stmts,
 						&DropIndexStmt{
 							Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
 							Name:    beforeStmt.Name,
 						},
-						afterStmt,
 					)
+					createIndexStmts = append(createIndexStmts, afterStmt)
 				}
 			}
 		}
 	}
 
+	result.Stmts = append(result.Stmts, alterStmts...)
+	result.Stmts = append(result.Stmts, createIndexStmts...)
+
 	if len(result.Stmts) == 0 {
 		return nil, ddl.ErrNoDifference
 	}
@@ -124,3 +142,12 @@ func findStmtByTypeAndName(stmt Stmt, stmts []Stmt) Stmt { //nolint:ireturn
 	}
 	return nil
 }
+
+func findCreateTableStmtByTableName(tableName *ObjectName, stmts []Stmt) *CreateTableStmt {
+	for _, s := range stmts {
+		if createTableStmt, ok := s.(*CreateTableStmt); ok && createTableStmt.Name.StringForDiff() == tableName.StringForDiff() {
+			return createTableStmt
+		}
+	}
+	return nil
+}
-- 
2.43.0


From b117dd512542fb92b6ce9b9beb1bb7d5b00cc803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:16 +0000
Subject: [PATCH 02/69] fix: MySQL diff keeps the ON DELETE/ON UPDATE actions
 of foreign keys and the character set of modified columns

---
 pkg/ddl/mysql/ddl_table.go         | 6 ++++++
 pkg/ddl/mysql/diff_create_table.go | 1 +
 pkg/ddl/mysql/parser.go            | 2 +-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index c0dfe95..128f3f8 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -104,6 +104,9 @@ func (c *ForeignKeyConstraint) String() string {
 	str += " (" + stringz.JoinStringers(", ", c.Columns...) + ")"
 	str += " REFERENCES " + c.Ref.String()
 	str += " (" + stringz.JoinStringers(", ", c.RefColumns...) + ")"
+	if c.OnAction != "" {
+		str += " " + c.OnAction
+	}
 	return str
 }
 
@@ -130,6 +133,9 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 		str += v.StringForDiff()
 	}
 	str += ")"
+	if c.OnAction != "" {
+		str += " " + c.OnAction
+	}
 	return str
 }
 
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 2c4472b..9ec58af 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -261,6 +261,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 				Action: &ModifyColumn{
 					Name:          afterColumn.Name,
 					DataType:      afterColumn.DataType,
+					CharacterSet:  afterColumn.CharacterSet,
 					Collate:       afterColumn.Collate,
 					NotNull:       afterColumn.NotNull,
 					AutoIncrement: afterColumn.AutoIncrement,
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 4b72a3c..5e54173 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -566,7 +566,7 @@ LabelConstraints:
 				if err != nil {
 					return nil, apperr.Errorf("parseOnAction: %w", err)
 				}
-				constraint.OnAction = onAction
+				constraint.OnAction += " " + onAction
 			}
 
 			constraint.RefColumns = idents
-- 
2.43.0


From 8c6722df7c174d3c1d6932469a79f9911409448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:38 +0000
Subject: [PATCH 03/69] fix: apply splits the plan outside quoted literals
 only, so that a literal holding -- or ;newline, or a long line, no longer
 alters or drops statements

---
 pkg/ddlctl/apply/ddlctl_apply.go      | 14 +-----
 pkg/internal/util/remove_comment.go   | 34 ---------------
 pkg/internal/util/split_statements.go | 61 +++++++++++++++++++++++++++
 3 files changed, 63 insertions(+), 46 deletions(-)
 delete mode 100644 pkg/internal/util/remove_comment.go
 create mode 100644 pkg/internal/util/split_statements.go

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index d775fa0..d3b2c3d 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -13,7 +13,6 @@ import (
 	sqlz "github.com/kunitsucom/util.go/database/sql"
 	errorz "github.com/kunitsucom/util.go/errors"
 	"github.com/kunitsucom/util.go/retry"
-	stringz "github.com/kunitsucom/util.go/strings"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	"github.com/kunitsucom/ddlctl/pkg/ddl"
@@ -152,12 +151,7 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 				return apperr.Errorf("conn.ExecContext: q=%s: %w", q, err)
 			}
 		}
-		commentTrimmedDDL := stringz.ReadLine(ddlStr, "\n", stringz.ReadLineFuncRemoveCommentLine("--"))
-		for _, q := range strings.Split(commentTrimmedDDL, ";\n") {
-			if len(q) == 0 {
-				// skip empty query
-				continue
-			}
+		for _, q := range util.SplitStatements("--", ddlStr) {
 			if _, err := conn.ExecContext(ctx, q); err != nil {
 				return apperr.Errorf("conn.ExecContext: q=%s: %w", q, err)
 			}
@@ -199,16 +193,12 @@ func splitExec(
 	notErrorNotLogFunc func(err error) bool,
 	errorNotLogFunc func(err error) bool,
 ) error {
-	ddls := strings.Split(util.RemoveCommentsAndEmptyLines("--", ddlStr), ";\n")
+	ddls := util.SplitStatements("--", ddlStr)
 	const interval = 500 * time.Millisecond
 	retryer := retry.New(ctx, retry.NewConfig(interval, interval, retry.WithMaxRetries(len(ddls))))
 	if err := retryer.Do(func(ctx context.Context) error {
 		var outerErr error
 		for _, q := range ddls {
-			if len(q) == 0 {
-				// skip empty query
-				continue
-			}
 			if _, err := db.ExecContext(ctx, q); err != nil {
 				// If the error is one of the following, do not error and not log. go to the next DDL;
 				if notErrorNotLogFunc(err) {
diff --git a/pkg/internal/util/remove_comment.go b/pkg/internal/util/remove_comment.go
deleted file mode 100644
index bcfb28e..0000000
--- a/pkg/internal/util/remove_comment.go
+++ /dev/null
@@ -1,34 +0,0 @@
-package util
-
-import (
-	"bufio"
-	"strings"
-)
-
-func RemoveCommentsAndEmptyLines(prefix, input string) string {
-	var result strings.Builder
-	scanner := bufio.NewScanner(strings.NewReader(input))
-
-	for scanner.Scan() {
-		line := scanner.Text()
-		trimmedLine := strings.TrimSpace(line)
-
-		// Skip if the entire line is a comment
-		if strings.HasPrefix(trimmedLine, prefix) {
-			continue
-		}
-
-		// Process comments in the line
-		if idx := strings.Index(line, prefix); idx != -1 {
-			line = strings.TrimSpace(line[:idx])
-		}
-
-		// Add only if it is not an empty line
-		if line != "" {
-			result.WriteString(line)
-			result.WriteString("\n")
-		}
-	}
-
-	return result.String()
-}
diff --git a/pkg/internal/util/split_statements.go b/pkg/internal/util/split_statements.go
new file mode 100644
index 0000000..d8b684d
--- /dev/null
+++ b/pkg/internal/util/split_statements.go
@@ -0,0 +1,61 @@
+package util
+
+import (
+	"strings"
+)
+
+// SplitStatements splits input into the statements terminated by a semicolon.
+// Comments (from commentPrefix to the end of the line) and empty lines are removed,
+// except inside quoted literals and identifiers, which are kept as they are.
+func SplitStatements(commentPrefix, input string) []string {
+	var (
+		statements []string
+		stmt, line strings.Builder
+		quote      byte
+	)
+
+	// endLine moves the current line to the current statement, unless it is empty.
+	endLine := func() {
+		if s := line.String(); strings.TrimSpace(s) != "" {
+			stmt.WriteString(s)
+			stmt.WriteByte('\n')
+		}
+		line.Reset()
+	}
+	// endStatement appends the current statement to the statements, unless it is empty.
+	endStatement := func() {
+		endLine()
+		if s := strings.TrimSuffix(stmt.String(), "\n"); s != "" {
+			statements = append(statements, s)
+		}
+		stmt.Reset()
+	}
+
+	for i := 0; i < len(input); i++ {
+		ch := input[i]
+		switch {
+		case quote != 0:
+			line.WriteByte(ch)
+			if ch == quote {
+				quote = 0
+			}
+		case ch == '\'' || ch == '"' || ch == '`':
+			line.WriteByte(ch)
+			quote = ch
+		case strings.HasPrefix(input[i:], commentPrefix):
+			// skip to the end of the line
+			for i+1 < len(input) && input[i+1] != '\n' {
+				i++
+			}
+		case ch == '\n':
+			endLine()
+		case ch == ';':
+			endStatement()
+		default:
+			line.WriteByte(ch)
+		}
+	}
+	endStatement()
+
+	return statements
+}
-- 
2.43.0


From c58f4567fdff55cbc909c06c38b692415a950423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:50 +0000
Subject: [PATCH 04/69] fix: generate keeps the destination when it fails,
 reports a failed close, and rejects missing arguments instead of panicking

---
 pkg/ddlctl/generate/ddlctl_generate.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/pkg/ddlctl/generate/ddlctl_generate.go b/pkg/ddlctl/generate/ddlctl_generate.go
index ad272d5..244103e 100644
--- a/pkg/ddlctl/generate/ddlctl_generate.go
+++ b/pkg/ddlctl/generate/ddlctl_generate.go
@@ -1,6 +1,7 @@
 package generate
 
 import (
+	"bytes"
 	"context"
 	"io"
 	"os"
@@ -17,11 +18,16 @@ import (
 	"github.com/kunitsucom/ddlctl/pkg/logs"
 )
 
-func Command(ctx context.Context, args []string) error {
+func Command(ctx context.Context, args []string) (err error) {
 	if _, err := config.Load(ctx); err != nil {
 		return apperr.Errorf("config.Load: %w", err)
 	}
 
+	const sourceAndDestination = 2
+	if len(args) != sourceAndDestination {
+		return apperr.Errorf("args=%v: %w", args, apperr.ErrTwoArgumentsRequired)
+	}
+
 	dialect := config.Dialect()
 	language := config.Language()
 	src := args[0]
@@ -36,15 +42,27 @@ func Command(ctx context.Context, args []string) error {
 		dst = filepath.Join(dst, "ddlctl.gen.sql")
 	}
 
+	// NOTE: The destination is not opened until the DDL is complete, so that a failure leaves it as it is.
+	buf := new(bytes.Buffer)
+	if err := Generate(ctx, buf, src, dialect, language); err != nil {
+		return apperr.Errorf("fprint: %w", err)
+	}
+
 	const rw_r__r__ = 0o644 //nolint:revive,stylecheck
 	dstFile, err := os.OpenFile(dst, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, rw_r__r__)
 	if err != nil {
 		return apperr.Errorf("os.OpenFile: %w", err)
 	}
+	defer func() {
+		if cerr := dstFile.Close(); err == nil && cerr != nil {
+			err = apperr.Errorf("dstFile.Close: %w", cerr)
+		}
+	}()
 
-	if err := Generate(ctx, dstFile, src, dialect, language); err != nil {
-		return apperr.Errorf("fprint: %w", err)
+	if _, err := dstFile.Write(buf.Bytes()); err != nil {
+		return apperr.Errorf("dstFile.Write: %w", err)
 	}
+
 	return nil
 }
 
-- 
2.43.0


From 5d121c5e214623418abb81adf79e2bfd8f521e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:50 +0000
Subject: [PATCH 05/69] fix: apply reports failed closes, a failed read of the
 approval and failed output instead of ignoring them

---
 pkg/ddlctl/apply/ddlctl_apply.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index d3b2c3d..644c2b0 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -44,7 +44,9 @@ func Command(ctx context.Context, args []string) (err error) {
 	buf := new(strings.Builder)
 	if err := diff.Diff(ctx, buf, dialect, language, leftArg, rightArg); err != nil {
 		if errors.Is(err, ddl.ErrNoDifference) {
-			_, _ = fmt.Fprintln(os.Stdout, ddl.ErrNoDifference.Error())
+			if _, err := fmt.Fprintln(os.Stdout, ddl.ErrNoDifference.Error()); err != nil {
+				return apperr.Errorf("fmt.Fprintln: %w", err)
+			}
 			return nil
 		}
 		return apperr.Errorf("diff: %w", err)
@@ -80,19 +82,23 @@ Enter a value: `
 		}
 	}
 
-	os.Stdout.WriteString("\nexecuting...\n")
+	if _, err := os.Stdout.WriteString("\nexecuting...\n"); err != nil {
+		return apperr.Errorf("os.Stdout.WriteString: %w", err)
+	}
 
 	if err := Apply(ctx, dialect, leftArg, ddlStr); err != nil {
 		return apperr.Errorf("Apply: %w", err)
 	}
 
-	os.Stdout.WriteString("done\n")
+	if _, err := os.Stdout.WriteString("done\n"); err != nil {
+		return apperr.Errorf("os.Stdout.WriteString: %w", err)
+	}
 
 	return nil
 }
 
 //nolint:cyclop,funlen,gocognit,gocyclo
-func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
+func Apply(ctx context.Context, dialect, dsn, ddlStr string) (err error) {
 	driverName := func() string {
 		switch dialect {
 		case ddlcrdb.Dialect:
@@ -175,6 +181,9 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 func prompt() error {
 	scanner := bufio.NewScanner(os.Stdin)
 	scanner.Scan()
+	if err := scanner.Err(); err != nil {
+		return apperr.Errorf("scanner.Scan: %w", err)
+	}
 
 	switch input := scanner.Text(); input {
 	case "yes":
-- 
2.43.0


From aa3694836af6f5c223b1e93b695f3e388c71e5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:55 +0000
Subject: [PATCH 06/69] fix: show rejects a missing argument instead of
 panicking

---
 pkg/apperr/errors.go           | 1 +
 pkg/ddlctl/show/ddlctl_show.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/pkg/apperr/errors.go b/pkg/apperr/errors.go
index ea6d128..0a59680 100644
--- a/pkg/apperr/errors.go
+++ b/pkg/apperr/errors.go
@@ -10,6 +10,7 @@ var (
 	ErrCanceled                           = errors.New("canceled")
 	ErrDialectIsEmpty                     = errors.New("dialect is empty")
 	ErrDDLTagGoAnnotationNotFoundInSource = errors.New("go-ddl-tag annotation not found in source")
+	ErrOneArgumentRequired                = errors.New("one argument required")
 	ErrTwoArgumentsRequired               = errors.New("two arguments required")
 	ErrBothArgumentsIsDSN                 = errors.New("both arguments is dsn")
 	ErrBothArgumentsAreNotDSNOrSQLFile    = errors.New("both arguments are not dsn or sql file")
diff --git a/pkg/ddlctl/show/ddlctl_show.go b/pkg/ddlctl/show/ddlctl_show.go
index 3f5bfc1..f8727f6 100644
--- a/pkg/ddlctl/show/ddlctl_show.go
+++ b/pkg/ddlctl/show/ddlctl_show.go
@@ -26,6 +26,10 @@ func Command(ctx context.Context, args []string) error {
 		return apperr.Errorf("config.Load: %w", err)
 	}
 
+	if len(args) != 1 {
+		return apperr.Errorf("args=%v: %w", args, apperr.ErrOneArgumentRequired)
+	}
+
 	ddl, err := Show(ctx, config.Dialect(), args[0])
 	if err != nil {
 		return apperr.Errorf("diff: %w", err)
-- 
2.43.0


From c8e94d49ede6b45b5d24a03db60c17e43ee77347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:41 +0000
Subject: [PATCH 07/69] fix: generate accepts untagged and embedded fields,
 orders its statements stably and puts the table before the indexes of its
 annotation

---
 pkg/internal/lang/go/parse.go | 55 ++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 7 deletions(-)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 71ff2a9..c36d9c4 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -157,6 +157,12 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		// columns
 		if r.StructType != nil {
 			for _, field := range r.StructType.Fields.List {
+				// NOTE: ignore no-tag fields
+				if field.Tag == nil {
+					continue
+				}
+
+				fieldName := getFieldName(field)
 				column := &generator.CreateTableColumn{}
 
 				tag := reflect.StructTag(strings.Trim(field.Tag.Value, "`"))
@@ -164,11 +170,11 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 				// column name
 				switch columnName := tag.Get(config.ColumnTagGo()); columnName {
 				case "-":
-					createTableStmt.Comments = append(createTableStmt.Comments, fmt.Sprintf("NOTE: the \"%s\" struct's \"%s\" field has a tag for column name (`%s:\"-\"`), so the field is ignored.", r.TypeSpec.Name, field.Names[0], config.ColumnTagGo()))
+					createTableStmt.Comments = append(createTableStmt.Comments, fmt.Sprintf("NOTE: the \"%s\" struct's \"%s\" field has a tag for column name (`%s:\"-\"`), so the field is ignored.", r.TypeSpec.Name, fieldName, config.ColumnTagGo()))
 					continue
 				case "":
-					name := field.Names[0].Name
-					column.Comments = append(column.Comments, fmt.Sprintf("WARN: the \"%s\" struct's \"%s\" field does not have a tag for column name (`%s:\"<ColumnName>\"`), so the field name \"%s\" is used as the column name.", r.TypeSpec.Name, field.Names[0], config.ColumnTagGo(), name))
+					name := fieldName
+					column.Comments = append(column.Comments, fmt.Sprintf("WARN: the \"%s\" struct's \"%s\" field does not have a tag for column name (`%s:\"<ColumnName>\"`), so the field name \"%s\" is used as the column name.", r.TypeSpec.Name, fieldName, config.ColumnTagGo(), name))
 					column.ColumnName = name
 				default:
 					column.ColumnName = columnName
@@ -178,7 +184,7 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 				switch columnTypeConstraint := tag.Get(config.DDLTagGo()); columnTypeConstraint {
 				case "", "-":
 					// NOTE: ignore no-annotation fields
-					// column.Comments = append(column.Comments, fmt.Sprintf("ERROR: the \"%s\" struct's \"%s\" field does not have a tag for column type and constraint (`%s:\"<TYPE> [CONSTRAINT]\"`)", r.TypeSpec.Name, field.Names[0], config.DDLTagGo()))
+					// column.Comments = append(column.Comments, fmt.Sprintf("ERROR: the \"%s\" struct's \"%s\" field does not have a tag for column type and constraint (`%s:\"<TYPE> [CONSTRAINT]\"`)", r.TypeSpec.Name, fieldName, config.DDLTagGo()))
 					// column.TypeConstraint = DDLCTL_ERROR_STRUCT_FIELD_TAG_NOT_FOUND
 					continue
 				default:
@@ -192,7 +198,7 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 				case "", "-":
 					// do nothing
 				default:
-					column.Comments = append(column.Comments, fmt.Sprintf("WARN: the field \"%s\" does not have valid primary key tag (`%s:\"true\"`), so the column is not used as primary key.", field.Names[0], config.PKTagGo()))
+					column.Comments = append(column.Comments, fmt.Sprintf("WARN: the field \"%s\" does not have valid primary key tag (`%s:\"true\"`), so the column is not used as primary key.", fieldName, config.PKTagGo()))
 				}
 
 				// comments
@@ -221,8 +227,13 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		}
 	}
 
-	sort.Slice(stmts, func(i, j int) bool {
-		return fmt.Sprintf("%s:%09d", stmts[i].GetSourceFile(), stmts[i].GetSourceLine()) < fmt.Sprintf("%s:%09d", stmts[j].GetSourceFile(), stmts[j].GetSourceLine())
+	sort.SliceStable(stmts, func(i, j int) bool {
+		left, right := fmt.Sprintf("%s:%09d", stmts[i].GetSourceFile(), stmts[i].GetSourceLine()), fmt.Sprintf("%s:%09d", stmts[j].GetSourceFile(), stmts[j].GetSourceLine())
+		if left != right {
+			return left < right
+		}
+		// NOTE: if the annotation starts with CREATE INDEX, its CREATE TABLE has the same position and must come first.
+		return isCreateTable(stmts[i]) && !isCreateTable(stmts[j])
 	})
 
 	for i := range stmts {
@@ -240,3 +251,33 @@ func extractContainingCommentFromCommentGroup(commentGroup *ast.CommentGroup, su
 	}
 	return nil
 }
+
+func isCreateTable(stmt generator.Stmt) bool {
+	_, ok := stmt.(*generator.CreateTableStmt)
+	return ok
+}
+
+// getFieldName returns the name of the struct field. If it is an embedded field, the name of its type is returned.
+func getFieldName(field *ast.Field) string {
+	if len(field.Names) > 0 {
+		return field.Names[0].Name
+	}
+
+	expr := field.Type
+	for {
+		switch t := expr.(type) {
+		case *ast.StarExpr:
+			expr = t.X
+		case *ast.SelectorExpr:
+			return t.Sel.Name
+		case *ast.IndexExpr:
+			expr = t.X
+		case *ast.IndexListExpr:
+			expr = t.X
+		case *ast.Ident:
+			return t.Name
+		default:
+			return ""
+		}
+	}
+}
-- 
2.43.0


From b2895f8eac7dcef96ae0241decbd98fc19da4081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:02 +0000
Subject: [PATCH 08/69] fix: a schema file with an unterminated quote or a NUL
 byte is rejected instead of crashing or being read as a smaller schema

---
 pkg/ddl/cockroachdb/lexar.go | 25 +++++++++++++++++--------
 pkg/ddl/mysql/lexar.go       | 25 +++++++++++++++++--------
 pkg/ddl/postgres/lexar.go    | 25 +++++++++++++++++--------
 pkg/ddl/spanner/lexar.go     | 25 +++++++++++++++++--------
 4 files changed, 68 insertions(+), 32 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index af40fb0..a7632b3 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -324,8 +324,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'':
+		lit, ok := l.readQuotedLiteral(l.ch)
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		if !ok {
+			tok.Type = TOKEN_ILLEGAL
+		}
+		tok.Literal = Literal{Str: lit}
 	case '|':
 		if l.peekChar() == '|' {
 			ch := l.ch
@@ -370,6 +374,10 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if l.position < len(l.input) {
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -386,17 +394,18 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
-// readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
-	// position := l.position + 1 // クォーテーションの次の文字から開始
+// readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。閉じられていない場合は false を返します。
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		if l.position >= len(l.input) {
+			return l.input[position:], false
+		}
+		if l.ch == quote {
+			return l.input[position : l.position+1], true
 		}
 	}
-	return l.input[position : l.position+1]
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
@@ -438,7 +447,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && l.position < len(l.input) {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index be26985..de09b7e 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -347,8 +347,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'', '`':
+		lit, ok := l.readQuotedLiteral(l.ch)
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		if !ok {
+			tok.Type = TOKEN_ILLEGAL
+		}
+		tok.Literal = Literal{Str: lit}
 	// MEMO: backup
 	// case '|':
 	// 	if l.peekChar() == '|' {
@@ -394,6 +398,10 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if l.position < len(l.input) {
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -410,17 +418,18 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
-// readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
-	// position := l.position + 1 // クォーテーションの次の文字から開始
+// readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。閉じられていない場合は false を返します。
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		if l.position >= len(l.input) {
+			return l.input[position:], false
+		}
+		if l.ch == quote {
+			return l.input[position : l.position+1], true
 		}
 	}
-	return l.input[position : l.position+1]
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
@@ -462,7 +471,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && l.position < len(l.input) {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 6a6be0d..0a38f11 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -303,8 +303,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'':
+		lit, ok := l.readQuotedLiteral(l.ch)
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		if !ok {
+			tok.Type = TOKEN_ILLEGAL
+		}
+		tok.Literal = Literal{Str: lit}
 	case '|':
 		if l.peekChar() == '|' {
 			ch := l.ch
@@ -344,6 +348,10 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if l.position < len(l.input) {
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -360,17 +368,18 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
-// readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
-	// position := l.position + 1 // クォーテーションの次の文字から開始
+// readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。閉じられていない場合は false を返します。
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		if l.position >= len(l.input) {
+			return l.input[position:], false
+		}
+		if l.ch == quote {
+			return l.input[position : l.position+1], true
 		}
 	}
-	return l.input[position : l.position+1]
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
@@ -412,7 +421,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && l.position < len(l.input) {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index fb7a2ad..a3386ff 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -303,8 +303,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'', '`':
+		lit, ok := l.readQuotedLiteral(l.ch)
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		if !ok {
+			tok.Type = TOKEN_ILLEGAL
+		}
+		tok.Literal = Literal{Str: lit}
 	// MEMO: backup
 	// case '|':
 	// 	if l.peekChar() == '|' {
@@ -350,6 +354,10 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if l.position < len(l.input) {
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -366,17 +374,18 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
-// readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
-	// position := l.position + 1 // クォーテーションの次の文字から開始
+// readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。閉じられていない場合は false を返します。
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		if l.position >= len(l.input) {
+			return l.input[position:], false
+		}
+		if l.ch == quote {
+			return l.input[position : l.position+1], true
 		}
 	}
-	return l.input[position : l.position+1]
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
@@ -418,7 +427,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && l.position < len(l.input) {
 		l.readChar()
 	}
 }
-- 
2.43.0


From 3c77413eb3e196f37807e3f2edaf35692b659d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 09/69] fix: a doubled quote inside a quoted literal no longer
 splits the literal in two

---
 pkg/ddl/cockroachdb/lexar.go | 4 ++++
 pkg/ddl/mysql/lexar.go       | 4 ++++
 pkg/ddl/postgres/lexar.go    | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index a7632b3..d5fcfdb 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -402,6 +402,10 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 		if l.position >= len(l.input) {
 			return l.input[position:], false
 		}
+		if l.ch == quote && l.peekChar() == quote { // エスケープされたクォーテーション
+			l.readChar()
+			continue
+		}
 		if l.ch == quote {
 			return l.input[position : l.position+1], true
 		}
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index de09b7e..8cdcb03 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -426,6 +426,10 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 		if l.position >= len(l.input) {
 			return l.input[position:], false
 		}
+		if l.ch == quote && l.peekChar() == quote { // エスケープされたクォーテーション
+			l.readChar()
+			continue
+		}
 		if l.ch == quote {
 			return l.input[position : l.position+1], true
 		}
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 0a38f11..35f4676 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -376,6 +376,10 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 		if l.position >= len(l.input) {
 			return l.input[position:], false
 		}
+		if l.ch == quote && l.peekChar() == quote { // エスケープされたクォーテーション
+			l.readChar()
+			continue
+		}
 		if l.ch == quote {
 			return l.input[position : l.position+1], true
 		}
-- 
2.43.0


From 6724761f25a9ce593f5cf24c208350e3557f9e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:15 +0000
Subject: [PATCH 10/69] fix: Spanner show keeps interleaving and column order
 of keys and indexes, and lists each index with its own columns

---
 pkg/ddl/spanner/ddl_table.go               | 14 ++++-
 pkg/show/spanner/show_create_all_tables.go | 66 ++++++++++++++++++----
 2 files changed, 69 insertions(+), 11 deletions(-)

diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index 48e3f39..ed7d956 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -302,7 +302,19 @@ func (o *Option) StringForDiff() string {
 	if o == nil || o.Value == nil {
 		return ""
 	}
-	return o.Name + " " + o.Value.StringForDiff()
+
+	// NOTE: the defaults may be omitted
+	value := &Expr{}
+	for _, ident := range o.Value.Idents {
+		switch s := strings.ToUpper(ident.StringForDiff()); {
+		case o.Name == "PRIMARY KEY" && s == "ASC",
+			o.Name == "INTERLEAVE IN PARENT" && s == "ON DELETE NO ACTION":
+			continue
+		}
+		value = value.Append(ident)
+	}
+
+	return o.Name + " " + value.StringForDiff()
 }
 
 func (o *Option) GoString() string { return internal.GoString(*o) }
diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index f72f9ed..75a060a 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -18,11 +18,47 @@ type sqlQueryerContext = interface {
 }
 
 const (
-	querySelectTableName = `SELECT TABLE_NAME FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '';`
+	querySelectTableName = `SELECT TABLE_NAME, PARENT_TABLE_NAME, ON_DELETE_ACTION FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '' ORDER BY TABLE_NAME;`
 )
 
 type informationSchemaTable struct {
-	TableName string `db:"TABLE_NAME"`
+	TableName       string  `db:"TABLE_NAME"`
+	ParentTableName *string `db:"PARENT_TABLE_NAME"`
+	OnDeleteAction  *string `db:"ON_DELETE_ACTION"`
+}
+
+// sortParentsFirst sorts tables so that an interleaved table comes after its parent, otherwise keeping the order.
+func sortParentsFirst(tables []*informationSchemaTable) []*informationSchemaTable {
+	byName := make(map[string]*informationSchemaTable, len(tables))
+	for _, tbl := range tables {
+		byName[tbl.TableName] = tbl
+	}
+
+	sorted := make([]*informationSchemaTable, 0, len(tables))
+	done := make(map[string]bool, len(tables))
+	var add func(tbl *informationSchemaTable)
+	add = func(tbl *informationSchemaTable) {
+		if done[tbl.TableName] {
+			return
+		}
+		done[tbl.TableName] = true
+		if tbl.ParentTableName != nil && byName[*tbl.ParentTableName] != nil {
+			add(byName[*tbl.ParentTableName])
+		}
+		sorted = append(sorted, tbl)
+	}
+	for _, tbl := range tables {
+		add(tbl)
+	}
+
+	return sorted
+}
+
+func showColumnOrdering(columnOrdering string) string {
+	if columnOrdering == "DESC" {
+		return " DESC"
+	}
+	return ""
 }
 
 const (
@@ -58,7 +94,7 @@ func (c *informationSchemaColumn) String() string {
 }
 
 const (
-	queryShowTableColumnOptions = `SELECT COLUMN_NAME, OPTION_NAME, OPTION_VALUE FROM INFORMATION_SCHEMA.COLUMN_OPTIONS WHERE TABLE_NAME = ?;`
+	queryShowTableColumnOptions = `SELECT COLUMN_NAME, OPTION_NAME, OPTION_VALUE FROM INFORMATION_SCHEMA.COLUMN_OPTIONS WHERE TABLE_NAME = ? ORDER BY COLUMN_NAME, OPTION_NAME;`
 )
 
 type informationSchemaColumnOption struct {
@@ -106,7 +142,7 @@ type informationSchemaPrimaryKey struct {
 }
 
 const (
-	querySelectIndexes = `SELECT DISTINCT INDEX_NAME, IS_UNIQUE FROM INFORMATION_SCHEMA.INDEXES WHERE TABLE_NAME = ? AND INDEX_TYPE != "PRIMARY_KEY";`
+	querySelectIndexes = `SELECT DISTINCT INDEX_NAME, IS_UNIQUE FROM INFORMATION_SCHEMA.INDEXES WHERE TABLE_NAME = ? AND INDEX_TYPE != "PRIMARY_KEY" ORDER BY INDEX_NAME;`
 )
 
 type informationSchemaIndexName struct {
@@ -128,10 +164,11 @@ INNER JOIN
     INFORMATION_SCHEMA.INDEX_COLUMNS AS ic
 ON
     i.TABLE_NAME = ic.TABLE_NAME
+    AND i.INDEX_NAME = ic.INDEX_NAME
 WHERE
-    i.TABLE_NAME = ? 
-    AND i.INDEX_TYPE != "PRIMARY_KEY" 
-    AND ic.INDEX_NAME != "PRIMARY_KEY" 
+    i.TABLE_NAME = ?
+    AND i.INDEX_NAME = ?
+    AND i.INDEX_TYPE != "PRIMARY_KEY"
 ORDER BY
     i.TABLE_NAME, ic.INDEX_NAME, ic.ORDINAL_POSITION
 ;
@@ -182,6 +219,8 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 		return "", apperr.Errorf("dbz.QueryContext: %w", err)
 	}
 
+	tables = sortParentsFirst(tables)
+
 	tablesLastIndex := len(tables) - 1
 	for tblIdx, tbl := range tables {
 		// TABLE
@@ -236,7 +275,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			d += " PRIMARY KEY ("
 			primaryKeyColumnsLastIndex := len(primaryKeyColumns) - 1
 			for i, pk := range primaryKeyColumns {
-				d += pk.ColumnName
+				d += pk.ColumnName + showColumnOrdering(pk.ColumnOrdering)
 				if i != primaryKeyColumnsLastIndex {
 					d += ", "
 				}
@@ -244,6 +283,13 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			d += ")"
 		}
 
+		if tbl.ParentTableName != nil && *tbl.ParentTableName != "" {
+			d += ",\nINTERLEAVE IN PARENT " + *tbl.ParentTableName
+			if tbl.OnDeleteAction != nil && *tbl.OnDeleteAction != "" {
+				d += " ON DELETE " + *tbl.OnDeleteAction
+			}
+		}
+
 		tableOptionRowDeletionPolicy := make([]*informationSchemaTableOptionRowDeletionPolicy, 0)
 		if err := dbz.QueryContext(ctx, &tableOptionRowDeletionPolicy, querySelectTableOptionRowDeletionPolicy, tbl.TableName); err != nil {
 			return "", apperr.Errorf("dbz.QueryContext: %w", err)
@@ -268,7 +314,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 
 		for _, indexName := range indexNames {
 			indexes := make([]*informationSchemaIndex, 0)
-			if err := dbz.QueryContext(ctx, &indexes, queryShowIndexes, tbl.TableName); err != nil {
+			if err := dbz.QueryContext(ctx, &indexes, queryShowIndexes, tbl.TableName, indexName.IndexName); err != nil {
 				return "", apperr.Errorf("dbz.QueryContext: %w", err)
 			}
 
@@ -280,7 +326,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 
 			indexesLastIndex := len(indexes) - 1
 			for i, idx := range indexes {
-				d += idx.ColumnName
+				d += idx.ColumnName + showColumnOrdering(idx.ColumnOrdering)
 				if i != indexesLastIndex {
 					d += ", "
 				}
-- 
2.43.0


From 4ac6b76c74300ca6fafc0b32501f04de3e4d3b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:17 +0000
Subject: [PATCH 11/69] fix: show lists MySQL tables and PostgreSQL constraints
 and indexes in a defined order

---
 pkg/show/mysql/show_create_all_tables.go    | 2 +-
 pkg/show/postgres/show_create_all_tables.go | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/show/mysql/show_create_all_tables.go b/pkg/show/mysql/show_create_all_tables.go
index a78e141..9789f1b 100644
--- a/pkg/show/mysql/show_create_all_tables.go
+++ b/pkg/show/mysql/show_create_all_tables.go
@@ -52,7 +52,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 	}
 
 	tableNames := new([]*TableName)
-	tableNamesQuery := "SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_SCHEMA = " + databaseQuoted
+	tableNamesQuery := "SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_SCHEMA = " + databaseQuoted + " ORDER BY TABLE_NAME"
 	if err := dbz.QueryContext(ctx, tableNames, tableNamesQuery); err != nil {
 		return "", apperr.Errorf("dbz.QueryContext: q=%s: %w", tableNamesQuery, err)
 	}
diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index a531a92..18afc21 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -50,7 +50,7 @@ LEFT JOIN
                 'CONSTRAINT ' || tc.constraint_name || ' ' || tc.constraint_type || ' (' || kcu.column_names || ')' ||
                 (CASE WHEN rc.update_rule IS NOT NULL THEN ' ON UPDATE ' || rc.update_rule ELSE '' END) ||
                 (CASE WHEN rc.delete_rule IS NOT NULL THEN ' ON DELETE ' || rc.delete_rule ELSE '' END),
-                ',' || E'\n' || '  '
+                ',' || E'\n' || '  ' ORDER BY tc.constraint_name
             ) AS constraint_defs
         FROM
             information_schema.table_constraints tc
@@ -103,6 +103,8 @@ WHERE
         FROM information_schema.table_constraints
         WHERE table_schema = '%s'
     )
+ORDER BY
+    tablename, indexname
 ;
 `
 )
-- 
2.43.0


From 9fa8132e6cb8cc3245c8a4b1ce7a1c707c3c0467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:53 +0000
Subject: [PATCH 12/69] fix: show, diff and apply close the database when its
 connection cannot be verified

---
 pkg/ddlctl/apply/ddlctl_apply.go |  5 ++---
 pkg/ddlctl/show/ddlctl_show.go   |  7 +++----
 pkg/internal/util/open_db.go     | 23 +++++++++++++++++++++++
 3 files changed, 28 insertions(+), 7 deletions(-)
 create mode 100644 pkg/internal/util/open_db.go

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index 644c2b0..56d9537 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -10,7 +10,6 @@ import (
 	"strings"
 	"time"
 
-	sqlz "github.com/kunitsucom/util.go/database/sql"
 	errorz "github.com/kunitsucom/util.go/errors"
 	"github.com/kunitsucom/util.go/retry"
 
@@ -108,9 +107,9 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) (err error) {
 		}
 	}()
 
-	db, err := sqlz.OpenContext(ctx, driverName, dsn)
+	db, err := util.OpenDB(ctx, driverName, dsn)
 	if err != nil {
-		return apperr.Errorf("sqlz.OpenContext: %w", err)
+		return apperr.Errorf("util.OpenDB: %w", err)
 	}
 	defer func() {
 		if err2 := db.Close(); err2 != nil && err == nil {
diff --git a/pkg/ddlctl/show/ddlctl_show.go b/pkg/ddlctl/show/ddlctl_show.go
index f8727f6..497956b 100644
--- a/pkg/ddlctl/show/ddlctl_show.go
+++ b/pkg/ddlctl/show/ddlctl_show.go
@@ -7,14 +7,13 @@ import (
 	"io"
 	"os"
 
-	sqlz "github.com/kunitsucom/util.go/database/sql"
-
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	crdbddl "github.com/kunitsucom/ddlctl/pkg/ddl/cockroachdb"
 	myddl "github.com/kunitsucom/ddlctl/pkg/ddl/mysql"
 	pgddl "github.com/kunitsucom/ddlctl/pkg/ddl/postgres"
 	spanddl "github.com/kunitsucom/ddlctl/pkg/ddl/spanner"
 	"github.com/kunitsucom/ddlctl/pkg/internal/config"
+	"github.com/kunitsucom/ddlctl/pkg/internal/util"
 	crdbshow "github.com/kunitsucom/ddlctl/pkg/show/cockroachdb"
 	myshow "github.com/kunitsucom/ddlctl/pkg/show/mysql"
 	pgshow "github.com/kunitsucom/ddlctl/pkg/show/postgres"
@@ -53,12 +52,12 @@ func Show(ctx context.Context, dialect string, dsn string) (ddl string, err erro
 		}
 	}()
 
-	db, err := sqlz.OpenContext(ctx, driverName, dsn)
+	db, err := util.OpenDB(ctx, driverName, dsn)
 	if err != nil {
 		if dialect == spanddl.Dialect && errors.Is(err, driver.ErrBadConn) {
 			err = apperr.Errorf("error such as 'Instance not found' or 'Database not found' might have occurred: %w", err)
 		}
-		return "", apperr.Errorf("sqlz.OpenContext: %w", err)
+		return "", apperr.Errorf("util.OpenDB: %w", err)
 	}
 	defer func() {
 		if cerr := db.Close(); err == nil && cerr != nil {
diff --git a/pkg/internal/util/open_db.go b/pkg/internal/util/open_db.go
new file mode 100644
index 0000000..9adeabb
--- /dev/null
+++ b/pkg/internal/util/open_db.go
@@ -0,0 +1,23 @@
+package util
+
+import (
+	"context"
+	"database/sql"
+	"errors"
+
+	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
+)
+
+// OpenDB opens the database and verifies the connection. If the verification fails, the database is closed.
+func OpenDB(ctx context.Context, driverName string, dataSourceName string) (*sql.DB, error) {
+	db, err := sql.Open(driverName, dataSourceName)
+	if err != nil {
+		return nil, apperr.Errorf("sql.Open: %w", err)
+	}
+
+	if err := db.PingContext(ctx); err != nil {
+		return nil, apperr.Errorf("db.PingContext: %w", errors.Join(err, db.Close()))
+	}
+
+	return db, nil
+}
-- 
2.43.0


From 676f80f6ed7b98981343fc53cef37fb4c5cabe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:47 +0000
Subject: [PATCH 13/69] fix: generate reads block comments line by line instead
 of writing their raw lines into the DDL

---
 pkg/internal/lang/go/extract_source.go | 11 ++++++++++-
 pkg/internal/lang/go/parse.go          | 22 ++++++++++++++++++----
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index 92af228..5b1ceb6 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -56,7 +56,7 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 			for _, commentLine := range commentGroup.List {
 				logs.Trace.Printf("commentLine=%s: %s", filepathz.Short(fset.Position(commentGroup.Pos()).String()), commentLine.Text)
 				// NOTE: If the comment line matches the DDLTagGo, it is assumed to be a comment line for the struct.
-				if matches := DDLTagGoCommentLineRegex().FindStringSubmatch(commentLine.Text); len(matches) > _DDLTagGoCommentLineRegexContentIndex {
+				if hasDDLTagGo(commentLine) {
 					s := &ddlSource{
 						Position:     fset.Position(commentLine.Pos()),
 						CommentGroup: commentGroup,
@@ -88,3 +88,12 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 
 	return ddlSrc, nil
 }
+
+func hasDDLTagGo(comment *ast.Comment) bool {
+	for _, line := range append([]string{comment.Text}, commentLines(comment)...) {
+		if matches := DDLTagGoCommentLineRegex().FindStringSubmatch(line); len(matches) > _DDLTagGoCommentLineRegexContentIndex {
+			return true
+		}
+	}
+	return false
+}
diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index c36d9c4..d5347d8 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -15,7 +15,6 @@ import (
 	"unicode"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
-	slicez "github.com/kunitsucom/util.go/slices"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	"github.com/kunitsucom/ddlctl/pkg/internal/config"
@@ -111,9 +110,10 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		createTableStmt.SourceLine = r.Position.Line
 
 		// CREATE TABLE (or INDEX) / CONSTRAINT / OPTIONS (from comments)
-		comments := slicez.Select(r.CommentGroup.List, func(_ int, comment *ast.Comment) string {
-			return strings.TrimLeftFunc(strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(comment.Text, "//"), "/*"), "*/"), unicode.IsSpace)
-		})
+		comments := make([]string, 0)
+		for _, comment := range r.CommentGroup.List {
+			comments = append(comments, commentLines(comment)...)
+		}
 		for _, comment := range comments {
 			logs.Debug.Printf("[COMMENT DETECTED]: %s:%d: %s", createTableStmt.SourceFile, createTableStmt.SourceLine, comment)
 
@@ -252,6 +252,20 @@ func extractContainingCommentFromCommentGroup(commentGroup *ast.CommentGroup, su
 	return nil
 }
 
+// commentLines returns the lines of the comment without the comment markers.
+func commentLines(comment *ast.Comment) []string {
+	text, isBlock := strings.CutPrefix(comment.Text, "/*")
+	if !isBlock {
+		return []string{strings.TrimLeftFunc(strings.TrimPrefix(comment.Text, "//"), unicode.IsSpace)}
+	}
+
+	lines := strings.Split(strings.TrimSpace(strings.TrimSuffix(text, "*/")), "\n")
+	for i := range lines {
+		lines[i] = strings.TrimSpace(lines[i])
+	}
+	return lines
+}
+
 func isCreateTable(stmt generator.Stmt) bool {
 	_, ok := stmt.(*generator.CreateTableStmt)
 	return ok
-- 
2.43.0


From 580803620b5ffaaf6cbc0177f2086f5b582a0348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:58 +0000
Subject: [PATCH 14/69] fix: MySQL table options may be separated by commas, as
 generate writes them

---
 pkg/ddl/mysql/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 5e54173..a6a2825 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -251,6 +251,9 @@ LabelTableOptions:
 				return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
 			}
 			opt.Value = opt.Value.Append(NewRawIdent(p.currentToken.Literal.String()))
+		case TOKEN_COMMA: // NOTE: table options may be separated by commas
+			p.nextToken()
+			continue
 		case TOKEN_SEMICOLON, TOKEN_EOF:
 			break LabelTableOptions
 		default:
-- 
2.43.0


From 5c4f60352bfc5808269a814f88d1dbe11def6e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:45 +0000
Subject: [PATCH 15/69] fix: PostgreSQL and Spanner show quote the names that
 need it

---
 pkg/show/postgres/show_create_all_tables.go |  8 ++--
 pkg/show/spanner/show_create_all_tables.go  | 43 ++++++++++++++++++---
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index 18afc21..ce1e84c 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -17,7 +17,7 @@ type sqlQueryerContext = interface {
 const (
 	formatShowCreateAllTables = `-- CREATE TABLE
 SELECT
-    'CREATE TABLE ' || clmn.table_schema || '.' || clmn.table_name || ' (' || E'\n' || '  ' ||
+    'CREATE TABLE ' || quote_ident(clmn.table_schema) || '.' || quote_ident(clmn.table_name) || ' (' || E'\n' || '  ' ||
     clmn.column_defs ||
     (CASE WHEN cnst.constraint_defs IS NOT NULL THEN ',' || E'\n' || '  ' || cnst.constraint_defs ELSE '' END) || E'\n' || ');' AS create_statement
 FROM
@@ -27,7 +27,7 @@ FROM
             c.table_schema,
             c.table_name,
             string_agg(
-                c.column_name || ' ' || c.data_type ||
+                quote_ident(c.column_name) || ' ' || c.data_type ||
                 (CASE WHEN c.character_maximum_length IS NOT NULL THEN '(' || c.character_maximum_length || ')' ELSE '' END) ||
                 (CASE WHEN c.is_nullable = 'NO' THEN ' NOT NULL' ELSE '' END) ||
                 (CASE WHEN c.column_default IS NOT NULL THEN ' DEFAULT ' || c.column_default ELSE '' END),
@@ -47,7 +47,7 @@ LEFT JOIN
             tc.table_schema,
             tc.table_name,
             string_agg(
-                'CONSTRAINT ' || tc.constraint_name || ' ' || tc.constraint_type || ' (' || kcu.column_names || ')' ||
+                'CONSTRAINT ' || quote_ident(tc.constraint_name) || ' ' || tc.constraint_type || ' (' || kcu.column_names || ')' ||
                 (CASE WHEN rc.update_rule IS NOT NULL THEN ' ON UPDATE ' || rc.update_rule ELSE '' END) ||
                 (CASE WHEN rc.delete_rule IS NOT NULL THEN ' ON DELETE ' || rc.delete_rule ELSE '' END),
                 ',' || E'\n' || '  ' ORDER BY tc.constraint_name
@@ -61,7 +61,7 @@ LEFT JOIN
                     kcu.table_schema,
                     kcu.table_name,
                     kcu.constraint_name,
-                    string_agg(kcu.column_name, ', ' ORDER BY kcu.ordinal_position) AS column_names
+                    string_agg(quote_ident(kcu.column_name), ', ' ORDER BY kcu.ordinal_position) AS column_names
                 FROM
                     information_schema.key_column_usage kcu
                 GROUP BY
diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index 75a060a..9582c83 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"database/sql"
 	"fmt"
+	"strings"
 
 	sqlz "github.com/kunitsucom/util.go/database/sql"
 
@@ -61,6 +62,36 @@ func showColumnOrdering(columnOrdering string) string {
 	return ""
 }
 
+// NOTE: https://cloud.google.com/spanner/docs/reference/standard-sql/lexical#reserved_keywords
+//
+//nolint:gochecknoglobals
+var reservedKeywords = map[string]bool{
+	"ALL": true, "AND": true, "ANY": true, "ARRAY": true, "AS": true, "ASC": true,
+	"ASSERT_ROWS_MODIFIED": true, "AT": true, "BETWEEN": true, "BY": true, "CASE": true, "CAST": true,
+	"COLLATE": true, "CONTAINS": true, "CREATE": true, "CROSS": true, "CUBE": true, "CURRENT": true,
+	"DEFAULT": true, "DEFINE": true, "DESC": true, "DISTINCT": true, "ELSE": true, "END": true,
+	"ENUM": true, "ESCAPE": true, "EXCEPT": true, "EXCLUDE": true, "EXISTS": true, "EXTRACT": true,
+	"FALSE": true, "FETCH": true, "FOLLOWING": true, "FOR": true, "FROM": true, "FULL": true,
+	"GROUP": true, "GROUPING": true, "GROUPS": true, "HASH": true, "HAVING": true, "IF": true,
+	"IGNORE": true, "IN": true, "INNER": true, "INTERSECT": true, "INTERVAL": true, "INTO": true,
+	"IS": true, "JOIN": true, "LATERAL": true, "LEFT": true, "LIKE": true, "LIMIT": true,
+	"LOOKUP": true, "MERGE": true, "NATURAL": true, "NEW": true, "NO": true, "NOT": true,
+	"NULL": true, "NULLS": true, "OF": true, "ON": true, "OR": true, "ORDER": true,
+	"OUTER": true, "OVER": true, "PARTITION": true, "PRECEDING": true, "PROTO": true, "RANGE": true,
+	"RECURSIVE": true, "RESPECT": true, "RIGHT": true, "ROLLUP": true, "ROWS": true, "SELECT": true,
+	"SET": true, "SOME": true, "STRUCT": true, "TABLESAMPLE": true, "THEN": true, "TO": true,
+	"TREAT": true, "TRUE": true, "UNBOUNDED": true, "UNION": true, "UNNEST": true, "USING": true,
+	"WHEN": true, "WHERE": true, "WINDOW": true, "WITH": true, "WITHIN": true,
+}
+
+// quoteIdent quotes the name of a table, column or index that the DDL can hold only quoted.
+func quoteIdent(name string) string {
+	if reservedKeywords[strings.ToUpper(name)] {
+		return "`" + name + "`"
+	}
+	return name
+}
+
 const (
 	querySelectTableOptionRowDeletionPolicy = `SELECT TABLE_NAME, ROW_DELETION_POLICY_EXPRESSION FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ? AND ROW_DELETION_POLICY_EXPRESSION != '';`
 )
@@ -83,7 +114,7 @@ type informationSchemaColumn struct {
 }
 
 func (c *informationSchemaColumn) String() string {
-	d := fmt.Sprintf("%s %s", c.ColumnName, c.SpannerType)
+	d := fmt.Sprintf("%s %s", quoteIdent(c.ColumnName), c.SpannerType)
 	if c.ColumnDefault != nil {
 		d += fmt.Sprintf(" DEFAULT (%s)", *c.ColumnDefault)
 	}
@@ -224,7 +255,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 	tablesLastIndex := len(tables) - 1
 	for tblIdx, tbl := range tables {
 		// TABLE
-		d := fmt.Sprintf("CREATE TABLE %s (\n", tbl.TableName)
+		d := fmt.Sprintf("CREATE TABLE %s (\n", quoteIdent(tbl.TableName))
 
 		columns := make([]*informationSchemaColumn, 0)
 		if err := dbz.QueryContext(ctx, &columns, queryShowCreateAllTables, tbl.TableName); err != nil {
@@ -275,7 +306,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			d += " PRIMARY KEY ("
 			primaryKeyColumnsLastIndex := len(primaryKeyColumns) - 1
 			for i, pk := range primaryKeyColumns {
-				d += pk.ColumnName + showColumnOrdering(pk.ColumnOrdering)
+				d += quoteIdent(pk.ColumnName) + showColumnOrdering(pk.ColumnOrdering)
 				if i != primaryKeyColumnsLastIndex {
 					d += ", "
 				}
@@ -284,7 +315,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 		}
 
 		if tbl.ParentTableName != nil && *tbl.ParentTableName != "" {
-			d += ",\nINTERLEAVE IN PARENT " + *tbl.ParentTableName
+			d += ",\nINTERLEAVE IN PARENT " + quoteIdent(*tbl.ParentTableName)
 			if tbl.OnDeleteAction != nil && *tbl.OnDeleteAction != "" {
 				d += " ON DELETE " + *tbl.OnDeleteAction
 			}
@@ -322,11 +353,11 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			if indexName.IsUnique {
 				d += "UNIQUE "
 			}
-			d += fmt.Sprintf("INDEX %s ON %s (", indexName.IndexName, tbl.TableName)
+			d += fmt.Sprintf("INDEX %s ON %s (", quoteIdent(indexName.IndexName), quoteIdent(tbl.TableName))
 
 			indexesLastIndex := len(indexes) - 1
 			for i, idx := range indexes {
-				d += idx.ColumnName + showColumnOrdering(idx.ColumnOrdering)
+				d += quoteIdent(idx.ColumnName) + showColumnOrdering(idx.ColumnOrdering)
 				if i != indexesLastIndex {
 					d += ", "
 				}
-- 
2.43.0


From 46172d073a4f22a7226b3f3ba1d877d165ad48fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:07 +0000
Subject: [PATCH 16/69] fix: a default starting with a data type crashed the
 PostgreSQL and CockroachDB parsers

---
 pkg/ddl/cockroachdb/parser.go | 2 +-
 pkg/ddl/postgres/parser.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 2723959..23d5667 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -384,7 +384,7 @@ LabelDefault:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				def.Value.Idents = append(def.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 7d3d3af..d5b4960 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -357,7 +357,7 @@ LabelDefault:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				def.Value.Idents = append(def.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
-- 
2.43.0


From 9ddb115116bd996ad31345acede64a9b1bb13d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:07 +0000
Subject: [PATCH 17/69] fix: non-ASCII characters outside quotes are part of
 the name instead of being garbled

---
 pkg/ddl/cockroachdb/lexar.go | 4 +++-
 pkg/ddl/mysql/lexar.go       | 4 +++-
 pkg/ddl/postgres/lexar.go    | 4 +++-
 pkg/ddl/spanner/lexar.go     | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index d5fcfdb..7034f84 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -2,6 +2,7 @@ package cockroachdb
 
 import (
 	"strings"
+	"unicode/utf8"
 )
 
 // MEMO: https://www.postgresql.jp/docs/11/datatype.html
@@ -439,7 +440,8 @@ func isLiteral(ch byte) bool {
 		'a' <= ch && ch <= 'z' ||
 		'0' <= ch && ch <= '9' ||
 		ch == '_' ||
-		ch == '.'
+		ch == '.' ||
+		ch >= utf8.RuneSelf // NOTE: part of a non-ASCII character
 }
 
 func (l *Lexer) skipWhitespace() (skipped bool) {
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index 8cdcb03..ca6c27f 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -2,6 +2,7 @@ package mysql
 
 import (
 	"strings"
+	"unicode/utf8"
 )
 
 // MEMO: https://dev.mysql.com/doc/refman/8.0/ja/data-types.html
@@ -463,7 +464,8 @@ func isLiteral(ch byte) bool {
 		'a' <= ch && ch <= 'z' ||
 		'0' <= ch && ch <= '9' ||
 		ch == '_' ||
-		ch == '.'
+		ch == '.' ||
+		ch >= utf8.RuneSelf // NOTE: part of a non-ASCII character
 }
 
 func (l *Lexer) skipWhitespace() (skipped bool) {
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 35f4676..e07c208 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -2,6 +2,7 @@ package postgres
 
 import (
 	"strings"
+	"unicode/utf8"
 )
 
 // MEMO: https://www.postgresql.jp/docs/11/datatype.html
@@ -413,7 +414,8 @@ func isLiteral(ch byte) bool {
 		'a' <= ch && ch <= 'z' ||
 		'0' <= ch && ch <= '9' ||
 		ch == '_' ||
-		ch == '.'
+		ch == '.' ||
+		ch >= utf8.RuneSelf // NOTE: part of a non-ASCII character
 }
 
 func (l *Lexer) skipWhitespace() (skipped bool) {
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index a3386ff..462185a 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -2,6 +2,7 @@ package spanner
 
 import (
 	"strings"
+	"unicode/utf8"
 )
 
 // MEMO: https://www.postgresql.jp/docs/11/datatype.html
@@ -415,7 +416,8 @@ func isLiteral(ch byte) bool {
 		'a' <= ch && ch <= 'z' ||
 		'0' <= ch && ch <= '9' ||
 		ch == '_' ||
-		ch == '.'
+		ch == '.' ||
+		ch >= utf8.RuneSelf // NOTE: part of a non-ASCII character
 }
 
 func (l *Lexer) skipWhitespace() (skipped bool) {
-- 
2.43.0


From 3b75c79c06004e10a90d85120bfb7d985f83e8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:51 +0000
Subject: [PATCH 18/69] fix: what follows a REFERENCES or CHECK of a column was
 skipped, which lost it or made it unparsable

---
 pkg/ddl/cockroachdb/parser.go | 3 +++
 pkg/ddl/mysql/parser.go       | 2 ++
 pkg/ddl/postgres/parser.go    | 3 +++
 pkg/ddl/spanner/parser.go     | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 23d5667..ed673b3 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -581,9 +581,11 @@ LabelConstraints:
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
 				constraint.OnAction = onAction
+				p.nextToken()
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // NOTE: the current token is already the one after the constraint
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{ //diff:ignore-line-postgres-cockroach
 				Unique:  true, //diff:ignore-line-postgres-cockroach
@@ -604,6 +606,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // NOTE: the current token is already the one after the constraint
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index a6a2825..7a222c3 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -574,6 +574,7 @@ LabelConstraints:
 
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // NOTE: the current token is already the one after the constraint
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{
 				Unique:  true,
@@ -594,6 +595,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // NOTE: the current token is already the one after the constraint
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_COMMENT:
 			break LabelConstraints
 		default:
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index d5b4960..38c6fab 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -474,9 +474,11 @@ LabelConstraints:
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
 				constraint.OnAction = onAction
+				p.nextToken()
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // NOTE: the current token is already the one after the constraint
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&UniqueConstraint{ //diff:ignore-line-postgres-cockroach
 				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
@@ -496,6 +498,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // NOTE: the current token is already the one after the constraint
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 4e1177a..db9d8e9 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -595,6 +595,7 @@ LabelConstraints:
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // NOTE: the current token is already the one after the constraint
 		case TOKEN_CHECK:
 			if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
@@ -609,6 +610,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // NOTE: the current token is already the one after the constraint
 		case TOKEN_OPTIONS, TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
-- 
2.43.0


From 8b4dada89cc9eff726f800e807c87702ac5c76c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:51 +0000
Subject: [PATCH 19/69] fix: PostgreSQL and CockroachDB names whose schema or
 table part is quoted by itself did not parse

---
 pkg/ddl/cockroachdb/ddl_table.go | 30 ++++++++++++++++++++++++++++++
 pkg/ddl/cockroachdb/lexar.go     | 30 +++++++++++++++++++++++++++++-
 pkg/ddl/postgres/ddl_table.go    | 30 ++++++++++++++++++++++++++++++
 pkg/ddl/postgres/lexar.go        | 30 +++++++++++++++++++++++++++++-
 4 files changed, 118 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index f41883f..2f3d98c 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -233,6 +233,14 @@ func (c *CheckConstraint) StringForDiff() string {
 func NewObjectName(name string) *ObjectName {
 	objName := &ObjectName{}
 
+	if i := indexOfQualifier(name); i >= 0 {
+		// CREATE TABLE "schema"."table"
+		objName.Schema = NewRawIdent(name[:i])
+		objName.Name = NewRawIdent(name[i+1:])
+		objName.quotedApart = true
+		return objName
+	}
+
 	tableName := NewRawIdent(name)
 	const hasSchema = 2
 	switch name := strings.Split(tableName.Name, "."); len(name) { //nolint:exhaustive
@@ -248,15 +256,37 @@ func NewObjectName(name string) *ObjectName {
 	return objName
 }
 
+// indexOfQualifier returns the index of the period between a schema and a table at least one of which is quoted by itself, or -1.
+func indexOfQualifier(name string) int {
+	quoted := false
+	for i := 0; i < len(name); i++ {
+		switch name[i] {
+		case '"':
+			quoted = !quoted
+		case '.':
+			if !quoted && strings.Contains(name, `"`) {
+				return i
+			}
+		}
+	}
+
+	return -1
+}
+
 type ObjectName struct {
 	Schema *Ident
 	Name   *Ident
+
+	quotedApart bool
 }
 
 func (t *ObjectName) String() string {
 	if t == nil {
 		return ""
 	}
+	if t.Schema != nil && t.quotedApart {
+		return t.Schema.String() + "." + t.Name.String()
+	}
 	if t.Schema != nil {
 		return t.Name.QuotationMark + t.Schema.StringForDiff() + "." + t.Name.StringForDiff() + t.Name.QuotationMark
 	}
diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index 7034f84..440516b 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -331,6 +331,15 @@ func (l *Lexer) NextToken() Token {
 			tok.Type = TOKEN_ILLEGAL
 		}
 		tok.Literal = Literal{Str: lit}
+		if ok && lit[0] == '"' && l.peekChar() == '.' { // "schema"."name" or "schema".name
+			l.readChar()
+			rest, ok := l.readQualifiedIdentifier()
+			if !ok {
+				tok.Type = TOKEN_ILLEGAL
+			}
+			tok.Literal.Str += rest
+			return tok
+		}
 	case '|':
 		if l.peekChar() == '|' {
 			ch := l.ch
@@ -383,8 +392,11 @@ func (l *Lexer) NextToken() Token {
 		tok.Type = TOKEN_EOF
 	default:
 		if isLiteral(l.ch) {
-			lit := l.readIdentifier()
+			lit, ok := l.readQualifiedIdentifier()
 			tok.Type = lookupIdent(lit)
+			if !ok {
+				tok.Type = TOKEN_ILLEGAL
+			}
 			tok.Literal = Literal{Str: lit}
 			return tok
 		}
@@ -435,6 +447,22 @@ func (l *Lexer) readIdentifier() string {
 	return str
 }
 
+// readQualifiedIdentifier reads an identifier, whose parts after a period may be quoted, such as schema."name".
+// It returns false if a quotation mark is not closed.
+func (l *Lexer) readQualifiedIdentifier() (identifier string, ok bool) {
+	str := l.readIdentifier()
+	for l.ch == '"' && strings.HasSuffix(str, ".") {
+		lit, ok := l.readQuotedLiteral(l.ch)
+		if !ok {
+			return str + lit, false
+		}
+		l.readChar()
+		str += lit + l.readIdentifier()
+	}
+
+	return str, true
+}
+
 func isLiteral(ch byte) bool {
 	return 'A' <= ch && ch <= 'Z' ||
 		'a' <= ch && ch <= 'z' ||
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index 070ca7b..ed3b9a0 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -202,6 +202,14 @@ func (c *CheckConstraint) StringForDiff() string {
 func NewObjectName(name string) *ObjectName {
 	objName := &ObjectName{}
 
+	if i := indexOfQualifier(name); i >= 0 {
+		// CREATE TABLE "schema"."table"
+		objName.Schema = NewRawIdent(name[:i])
+		objName.Name = NewRawIdent(name[i+1:])
+		objName.quotedApart = true
+		return objName
+	}
+
 	tableName := NewRawIdent(name)
 	const hasSchema = 2
 	switch name := strings.Split(tableName.Name, "."); len(name) { //nolint:exhaustive
@@ -217,15 +225,37 @@ func NewObjectName(name string) *ObjectName {
 	return objName
 }
 
+// indexOfQualifier returns the index of the period between a schema and a table at least one of which is quoted by itself, or -1.
+func indexOfQualifier(name string) int {
+	quoted := false
+	for i := 0; i < len(name); i++ {
+		switch name[i] {
+		case '"':
+			quoted = !quoted
+		case '.':
+			if !quoted && strings.Contains(name, `"`) {
+				return i
+			}
+		}
+	}
+
+	return -1
+}
+
 type ObjectName struct {
 	Schema *Ident
 	Name   *Ident
+
+	quotedApart bool
 }
 
 func (t *ObjectName) String() string {
 	if t == nil {
 		return ""
 	}
+	if t.Schema != nil && t.quotedApart {
+		return t.Schema.String() + "." + t.Name.String()
+	}
 	if t.Schema != nil {
 		return t.Name.QuotationMark + t.Schema.StringForDiff() + "." + t.Name.StringForDiff() + t.Name.QuotationMark
 	}
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index e07c208..5c89c4a 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -310,6 +310,15 @@ func (l *Lexer) NextToken() Token {
 			tok.Type = TOKEN_ILLEGAL
 		}
 		tok.Literal = Literal{Str: lit}
+		if ok && lit[0] == '"' && l.peekChar() == '.' { // "schema"."name" or "schema".name
+			l.readChar()
+			rest, ok := l.readQualifiedIdentifier()
+			if !ok {
+				tok.Type = TOKEN_ILLEGAL
+			}
+			tok.Literal.Str += rest
+			return tok
+		}
 	case '|':
 		if l.peekChar() == '|' {
 			ch := l.ch
@@ -357,8 +366,11 @@ func (l *Lexer) NextToken() Token {
 		tok.Type = TOKEN_EOF
 	default:
 		if isLiteral(l.ch) {
-			lit := l.readIdentifier()
+			lit, ok := l.readQualifiedIdentifier()
 			tok.Type = lookupIdent(lit)
+			if !ok {
+				tok.Type = TOKEN_ILLEGAL
+			}
 			tok.Literal = Literal{Str: lit}
 			return tok
 		}
@@ -409,6 +421,22 @@ func (l *Lexer) readIdentifier() string {
 	return str
 }
 
+// readQualifiedIdentifier reads an identifier, whose parts after a period may be quoted, such as schema."name".
+// It returns false if a quotation mark is not closed.
+func (l *Lexer) readQualifiedIdentifier() (identifier string, ok bool) {
+	str := l.readIdentifier()
+	for l.ch == '"' && strings.HasSuffix(str, ".") {
+		lit, ok := l.readQuotedLiteral(l.ch)
+		if !ok {
+			return str + lit, false
+		}
+		l.readChar()
+		str += lit + l.readIdentifier()
+	}
+
+	return str, true
+}
+
 func isLiteral(ch byte) bool {
 	return 'A' <= ch && ch <= 'Z' ||
 		'a' <= ch && ch <= 'z' ||
-- 
2.43.0


From 6472b4ffd670d4131532cdc5ccb10446b850a8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:22 +0000
Subject: [PATCH 20/69] fix: diff drops foreign keys before and adds them after
 everything else, because what they refer to may change too

---
 pkg/ddl/cockroachdb/diff.go | 42 ++++++++++++++++++++++++++++++++++++-
 pkg/ddl/mysql/diff.go       | 42 ++++++++++++++++++++++++++++++++++++-
 pkg/ddl/postgres/diff.go    | 42 ++++++++++++++++++++++++++++++++++++-
 pkg/ddl/spanner/diff.go     | 42 ++++++++++++++++++++++++++++++++++++-
 4 files changed, 164 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index 4300f3a..80ef979 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -78,7 +78,10 @@ func Diff(before, after *DDL) (*DDL, error) {
 	}
 
 	// DROP INDEX index_name; ALTER TABLE table_name ...; CREATE INDEX index_name ...
+	// MEMO: a foreign key is dropped before and added after everything else, because what it refers to may change too.
 	alterStmts := make([]Stmt, 0)
+	dropForeignKeyStmts := make([]Stmt, 0)
+	addForeignKeyStmts := make([]Stmt, 0)
 	for _, beforeStmt := range before.Stmts {
 		switch beforeStmt := beforeStmt.(type) { //nolint:gocritic
 		case *CreateTableStmt:
@@ -86,7 +89,16 @@ func Diff(before, after *DDL) (*DDL, error) {
 				afterStmt := afterStmt.(*CreateTableStmt) //nolint:forcetypeassert
 				alterStmt, err := DiffCreateTable(beforeStmt, afterStmt)
 				if err == nil {
-					alterStmts = append(alterStmts, alterStmt.Stmts...)
+					for _, stmt := range alterStmt.Stmts {
+						switch {
+						case isDropForeignKeyStmt(stmt, beforeStmt):
+							dropForeignKeyStmts = append(dropForeignKeyStmts, stmt)
+						case isAddForeignKeyStmt(stmt):
+							addForeignKeyStmts = append(addForeignKeyStmts, stmt)
+						default:
+							alterStmts = append(alterStmts, stmt)
+						}
+					}
 				}
 				errorz.PanicOrIgnore(err, ddl.ErrNoDifference) // MEMO: If before and after table_name is match, DiffCreateTable does not return error except ddl.ErrNoDifference.
 				continue
@@ -107,8 +119,10 @@ func Diff(before, after *DDL) (*DDL, error) {
 		}
 	}
 
+	result.Stmts = append(dropForeignKeyStmts, result.Stmts...)
 	result.Stmts = append(result.Stmts, alterStmts...)
 	result.Stmts = append(result.Stmts, createIndexStmts...)
+	result.Stmts = append(result.Stmts, addForeignKeyStmts...)
 
 	if len(result.Stmts) == 0 {
 		return nil, ddl.ErrNoDifference
@@ -146,3 +160,29 @@ func findCreateTableStmtByTableName(tableName *ObjectName, stmts []Stmt) *Create
 	}
 	return nil
 }
+
+func isDropForeignKeyStmt(stmt Stmt, before *CreateTableStmt) bool {
+	alterTableStmt, ok := stmt.(*AlterTableStmt)
+	if !ok {
+		return false
+	}
+	dropConstraint, ok := alterTableStmt.Action.(*DropConstraint)
+	if !ok {
+		return false
+	}
+	_, ok = findConstraintByName(dropConstraint.Name.Name, before.Constraints).(*ForeignKeyConstraint)
+	return ok
+}
+
+func isAddForeignKeyStmt(stmt Stmt) bool {
+	alterTableStmt, ok := stmt.(*AlterTableStmt)
+	if !ok {
+		return false
+	}
+	addConstraint, ok := alterTableStmt.Action.(*AddConstraint)
+	if !ok {
+		return false
+	}
+	_, ok = addConstraint.Constraint.(*ForeignKeyConstraint)
+	return ok
+}
diff --git a/pkg/ddl/mysql/diff.go b/pkg/ddl/mysql/diff.go
index 5f2e024..a972aa9 100644
--- a/pkg/ddl/mysql/diff.go
+++ b/pkg/ddl/mysql/diff.go
@@ -78,7 +78,10 @@ func Diff(before, after *DDL) (*DDL, error) {
 	}
 
 	// DROP INDEX index_name; ALTER TABLE table_name ...; CREATE INDEX index_name ...
+	// MEMO: a foreign key is dropped before and added after everything else, because what it refers to may change too.
 	alterStmts := make([]Stmt, 0)
+	dropForeignKeyStmts := make([]Stmt, 0)
+	addForeignKeyStmts := make([]Stmt, 0)
 	for _, beforeStmt := range before.Stmts {
 		switch beforeStmt := beforeStmt.(type) { //nolint:gocritic
 		case *CreateTableStmt:
@@ -86,7 +89,16 @@ func Diff(before, after *DDL) (*DDL, error) {
 				afterStmt := afterStmt.(*CreateTableStmt) //nolint:forcetypeassert
 				alterStmt, err := DiffCreateTable(beforeStmt, afterStmt)
 				if err == nil {
-					alterStmts = append(alterStmts, alterStmt.Stmts...)
+					for _, stmt := range alterStmt.Stmts {
+						switch {
+						case isDropForeignKeyStmt(stmt, beforeStmt):
+							dropForeignKeyStmts = append(dropForeignKeyStmts, stmt)
+						case isAddForeignKeyStmt(stmt):
+							addForeignKeyStmts = append(addForeignKeyStmts, stmt)
+						default:
+							alterStmts = append(alterStmts, stmt)
+						}
+					}
 				}
 				errorz.PanicOrIgnore(err, ddl.ErrNoDifference) // MEMO: If before and after table_name is match, DiffCreateTable does not return error except ddl.ErrNoDifference.
 				continue
@@ -107,8 +119,10 @@ func Diff(before, after *DDL) (*DDL, error) {
 		}
 	}
 
+	result.Stmts = append(dropForeignKeyStmts, result.Stmts...)
 	result.Stmts = append(result.Stmts, alterStmts...)
 	result.Stmts = append(result.Stmts, createIndexStmts...)
+	result.Stmts = append(result.Stmts, addForeignKeyStmts...)
 
 	if len(result.Stmts) == 0 {
 		return nil, ddl.ErrNoDifference
@@ -146,3 +160,29 @@ func findCreateTableStmtByTableName(tableName *ObjectName, stmts []Stmt) *Create
 	}
 	return nil
 }
+
+func isDropForeignKeyStmt(stmt Stmt, before *CreateTableStmt) bool {
+	alterTableStmt, ok := stmt.(*AlterTableStmt)
+	if !ok {
+		return false
+	}
+	dropConstraint, ok := alterTableStmt.Action.(*DropConstraint)
+	if !ok {
+		return false
+	}
+	_, ok = findConstraintByName(dropConstraint.Name.Name, before.Constraints).(*ForeignKeyConstraint)
+	return ok
+}
+
+func isAddForeignKeyStmt(stmt Stmt) bool {
+	alterTableStmt, ok := stmt.(*AlterTableStmt)
+	if !ok {
+		return false
+	}
+	addConstraint, ok := alterTableStmt.Action.(*AddConstraint)
+	if !ok {
+		return false
+	}
+	_, ok = addConstraint.Constraint.(*ForeignKeyConstraint)
+	return ok
+}
diff --git a/pkg/ddl/postgres/diff.go b/pkg/ddl/postgres/diff.go
index 488f49e..c4a4b48 100644
--- a/pkg/ddl/postgres/diff.go
+++ b/pkg/ddl/postgres/diff.go
@@ -78,7 +78,10 @@ func Diff(before, after *DDL) (*DDL, error) {
 	}
 
 	// DROP INDEX index_name; ALTER TABLE table_name ...; CREATE INDEX index_name ...
+	// MEMO: a foreign key is dropped before and added after everything else, because what it refers to may change too.
 	alterStmts := make([]Stmt, 0)
+	dropForeignKeyStmts := make([]Stmt, 0)
+	addForeignKeyStmts := make([]Stmt, 0)
 	for _, beforeStmt := range before.Stmts {
 		switch beforeStmt := beforeStmt.(type) { //nolint:gocritic
 		case *CreateTableStmt:
@@ -86,7 +89,16 @@ func Diff(before, after *DDL) (*DDL, error) {
 				afterStmt := afterStmt.(*CreateTableStmt) //nolint:forcetypeassert
 				alterStmt, err := DiffCreateTable(beforeStmt, afterStmt)
 				if err == nil {
-					alterStmts = append(alterStmts, alterStmt.Stmts...)
+					for _, stmt := range alterStmt.Stmts {
+						switch {
+						case isDropForeignKeyStmt(stmt, beforeStmt):
+							dropForeignKeyStmts = append(dropForeignKeyStmts, stmt)
+						case isAddForeignKeyStmt(stmt):
+							addForeignKeyStmts = append(addForeignKeyStmts, stmt)
+						default:
+							alterStmts = append(alterStmts, stmt)
+						}
+					}
 				}
 				errorz.PanicOrIgnore(err, ddl.ErrNoDifference) // MEMO: If before and after table_name is match, DiffCreateTable does not return error except ddl.ErrNoDifference.
 				continue
@@ -107,8 +119,10 @@ func Diff(before, after *DDL) (*DDL, error) {
 		}
 	}
 
+	result.Stmts = append(dropForeignKeyStmts, result.Stmts...)
 	result.Stmts = append(result.Stmts, alterStmts...)
 	result.Stmts = append(result.Stmts, createIndexStmts...)
+	result.Stmts = append(result.Stmts, addForeignKeyStmts...)
 
 	if len(result.Stmts) == 0 {
 		return nil, ddl.ErrNoDifference
@@ -146,3 +160,29 @@ func findCreateTableStmtByTableName(tableName *ObjectName, stmts []Stmt) *Create
 	}
 	return nil
 }
+
+func isDropForeignKeyStmt(stmt Stmt, before *CreateTableStmt) bool {
+	alterTableStmt, ok := stmt.(*AlterTableStmt)
+	if !ok {
+		return false
+	}
+	dropConstraint, ok := alterTableStmt.Action.(*DropConstraint)
+	if !ok {
+		return false
+	}
+	_, ok = findConstraintByName(dropConstraint.Name.Name, before.Constraints).(*ForeignKeyConstraint)
+	return ok
+}
+
+func isAddForeignKeyStmt(stmt Stmt) bool {
+	alterTableStmt, ok := stmt.(*AlterTableStmt)
+	if !ok {
+		return false
+	}
+	addConstraint, ok := alterTableStmt.Action.(*AddConstraint)
+	if !ok {
+		return false
+	}
+	_, ok = addConstraint.Constraint.(*ForeignKeyConstraint)
+	return ok
+}
diff --git a/pkg/ddl/spanner/diff.go b/pkg/ddl/spanner/diff.go
index 0cbaf04..8b2ee46 100644
--- a/pkg/ddl/spanner/diff.go
+++ b/pkg/ddl/spanner/diff.go
@@ -78,7 +78,10 @@ func Diff(before, after *DDL) (*DDL, error) {
 	}
 
 	// DROP INDEX index_name; ALTER TABLE table_name ...; CREATE INDEX index_name ...
+	// MEMO: a foreign key is dropped before and added after everything else, because what it refers to may change too.
 	alterStmts := make([]Stmt, 0)
+	dropForeignKeyStmts := make([]Stmt, 0)
+	addForeignKeyStmts := make([]Stmt, 0)
 	recreatedTables := make([]Stmt, 0)
 	for _, beforeStmt := range before.Stmts {
 		switch beforeStmt := beforeStmt.(type) { //nolint:gocritic
@@ -87,7 +90,16 @@ func Diff(before, after *DDL) (*DDL, error) {
 				afterStmt := afterStmt.(*CreateTableStmt) //nolint:forcetypeassert
 				alterStmt, err := DiffCreateTable(beforeStmt, afterStmt)
 				if err == nil {
-					alterStmts = append(alterStmts, alterStmt.Stmts...)
+					for _, stmt := range alterStmt.Stmts {
+						switch {
+						case isDropForeignKeyStmt(stmt, beforeStmt):
+							dropForeignKeyStmts = append(dropForeignKeyStmts, stmt)
+						case isAddForeignKeyStmt(stmt):
+							addForeignKeyStmts = append(addForeignKeyStmts, stmt)
+						default:
+							alterStmts = append(alterStmts, stmt)
+						}
+					}
 					if _, recreate := alterStmt.Stmts[0].(*DropTableStmt); recreate {
 						recreatedTables = append(recreatedTables, beforeStmt)
 					}
@@ -112,8 +124,10 @@ func Diff(before, after *DDL) (*DDL, error) {
 		}
 	}
 
+	result.Stmts = append(dropForeignKeyStmts, result.Stmts...)
 	result.Stmts = append(result.Stmts, alterStmts...)
 	result.Stmts = append(result.Stmts, createIndexStmts...)
+	result.Stmts = append(result.Stmts, addForeignKeyStmts...)
 
 	if len(result.Stmts) == 0 {
 		return nil, ddl.ErrNoDifference
@@ -151,3 +165,29 @@ func findCreateTableStmtByTableName(tableName *ObjectName, stmts []Stmt) *Create
 	}
 	return nil
 }
+
+func isDropForeignKeyStmt(stmt Stmt, before *CreateTableStmt) bool {
+	alterTableStmt, ok := stmt.(*AlterTableStmt)
+	if !ok {
+		return false
+	}
+	dropConstraint, ok := alterTableStmt.Action.(*DropConstraint)
+	if !ok {
+		return false
+	}
+	_, ok = findConstraintByName(dropConstraint.Name.Name, before.Constraints).(*ForeignKeyConstraint)
+	return ok
+}
+
+func isAddForeignKeyStmt(stmt Stmt) bool {
+	alterTableStmt, ok := stmt.(*AlterTableStmt)
+	if !ok {
+		return false
+	}
+	addConstraint, ok := alterTableStmt.Action.(*AddConstraint)
+	if !ok {
+		return false
+	}
+	_, ok = addConstraint.Constraint.(*ForeignKeyConstraint)
+	return ok
+}
-- 
2.43.0


From 8e46f489c25d3ec576648cce93fcda96ba64623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:40 +0000
Subject: [PATCH 21/69] fix: ON DELETE and ON UPDATE of a table-level foreign
 key did not parse on PostgreSQL and CockroachDB

---
 pkg/ddl/cockroachdb/parser.go | 17 ++++++++++++-----
 pkg/ddl/postgres/parser.go    | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index ed673b3..58d6479 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -561,7 +561,7 @@ LabelConstraints:
 			}
 			// TODO: support ON DELETE, ON UPDATE
 			//nolint:nestif
-			if p.isCurrentToken(TOKEN_ON) {
+			for p.isCurrentToken(TOKEN_ON) { // ON DELETE and ON UPDATE, in any order
 				onAction := p.currentToken.Literal.String() // current = ON
 				p.nextToken()                               // current = DELETE or UPDATE
 				if err := p.checkCurrentToken(TOKEN_DELETE, TOKEN_UPDATE); err != nil {
@@ -580,7 +580,10 @@ LabelConstraints:
 					p.nextToken()                                     // current = ACTION
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
-				constraint.OnAction = onAction
+				if constraint.OnAction != "" {
+					constraint.OnAction += " "
+				}
+				constraint.OnAction += onAction
 				p.nextToken()
 			}
 			constraint.RefColumns = idents
@@ -681,9 +684,12 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		}
 		// TODO: support ON DELETE, ON UPDATE
 		var onAction string
-		if p.isCurrentToken(TOKEN_ON) {
-			onAction = p.currentToken.Literal.String() // current = ON
-			p.nextToken()                              // current = DELETE or UPDATE
+		for p.isCurrentToken(TOKEN_ON) { // ON DELETE and ON UPDATE, in any order
+			if onAction != "" {
+				onAction += " "
+			}
+			onAction += p.currentToken.Literal.String() // current = ON
+			p.nextToken()                               // current = DELETE or UPDATE
 			if err := p.checkCurrentToken(TOKEN_DELETE, TOKEN_UPDATE); err != nil {
 				return nil, apperr.Errorf("checkCurrentToken: %w", err)
 			}
@@ -697,6 +703,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				p.nextToken()                                     // current = ACTION
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
+			p.nextToken() // current = ON or , or )
 		}
 		if constraintName == nil {
 			name := tableName.StringForDiff()
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 38c6fab..bf37537 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -454,7 +454,7 @@ LabelConstraints:
 			}
 			// TODO: support ON DELETE, ON UPDATE
 			//nolint:nestif
-			if p.isCurrentToken(TOKEN_ON) {
+			for p.isCurrentToken(TOKEN_ON) { // ON DELETE and ON UPDATE, in any order
 				onAction := p.currentToken.Literal.String() // current = ON
 				p.nextToken()                               // current = DELETE or UPDATE
 				if err := p.checkCurrentToken(TOKEN_DELETE, TOKEN_UPDATE); err != nil {
@@ -473,7 +473,10 @@ LabelConstraints:
 					p.nextToken()                                     // current = ACTION
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
-				constraint.OnAction = onAction
+				if constraint.OnAction != "" {
+					constraint.OnAction += " "
+				}
+				constraint.OnAction += onAction
 				p.nextToken()
 			}
 			constraint.RefColumns = idents
@@ -573,9 +576,12 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		}
 		// TODO: support ON DELETE, ON UPDATE
 		var onAction string
-		if p.isCurrentToken(TOKEN_ON) {
-			onAction = p.currentToken.Literal.String() // current = ON
-			p.nextToken()                              // current = DELETE or UPDATE
+		for p.isCurrentToken(TOKEN_ON) { // ON DELETE and ON UPDATE, in any order
+			if onAction != "" {
+				onAction += " "
+			}
+			onAction += p.currentToken.Literal.String() // current = ON
+			p.nextToken()                               // current = DELETE or UPDATE
 			if err := p.checkCurrentToken(TOKEN_DELETE, TOKEN_UPDATE); err != nil {
 				return nil, apperr.Errorf("checkCurrentToken: %w", err)
 			}
@@ -589,6 +595,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				p.nextToken()                                     // current = ACTION
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
+			p.nextToken() // current = ON or , or )
 		}
 		if constraintName == nil {
 			name := tableName.StringForDiff()
-- 
2.43.0


From 9e9a9e1a284a53ecc71d0f557074ed5f0d211b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:40 +0000
Subject: [PATCH 22/69] fix: a backslash in a MySQL or Spanner literal escapes
 the next character

---
 pkg/ddl/mysql/lexar.go   | 4 ++++
 pkg/ddl/spanner/lexar.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index ca6c27f..129180f 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -427,6 +427,10 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 		if l.position >= len(l.input) {
 			return l.input[position:], false
 		}
+		if l.ch == '\\' && quote != '`' { // エスケープシーケンス
+			l.readChar()
+			continue
+		}
 		if l.ch == quote && l.peekChar() == quote { // エスケープされたクォーテーション
 			l.readChar()
 			continue
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index 462185a..922f578 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -383,6 +383,10 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 		if l.position >= len(l.input) {
 			return l.input[position:], false
 		}
+		if l.ch == '\\' { // エスケープシーケンス
+			l.readChar()
+			continue
+		}
 		if l.ch == quote {
 			return l.input[position : l.position+1], true
 		}
-- 
2.43.0


From ac6b9189fc801d8d7b1bd7ff79a65c3a431a6efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:40 +0000
Subject: [PATCH 23/69] fix: apply splits the plan by the dialect's rules for
 backslashes in literals

---
 pkg/ddlctl/apply/ddlctl_apply.go      | 7 +++++--
 pkg/internal/util/split_statements.go | 8 ++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index 56d9537..0eb74d8 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -123,6 +123,7 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) (err error) {
 			ctx,
 			db,
 			ddlStr,
+			true,
 			func(err error) bool {
 				return errorz.Contains(err, "already exists") || errorz.Contains(err, "Duplicate column name")
 			},
@@ -135,6 +136,7 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) (err error) {
 			ctx,
 			db,
 			ddlStr,
+			false,
 			func(_ error) bool { return false }, // TODO: handle error
 			func(_ error) bool { return false }, // TODO: handle error
 		); err != nil {
@@ -156,7 +158,7 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) (err error) {
 				return apperr.Errorf("conn.ExecContext: q=%s: %w", q, err)
 			}
 		}
-		for _, q := range util.SplitStatements("--", ddlStr) {
+		for _, q := range util.SplitStatements("--", ddlStr, true) {
 			if _, err := conn.ExecContext(ctx, q); err != nil {
 				return apperr.Errorf("conn.ExecContext: q=%s: %w", q, err)
 			}
@@ -198,10 +200,11 @@ func splitExec(
 		ExecContext(ctx context.Context, query string, args ...any) (sql.Result, error)
 	},
 	ddlStr string,
+	backslashEscapes bool,
 	notErrorNotLogFunc func(err error) bool,
 	errorNotLogFunc func(err error) bool,
 ) error {
-	ddls := util.SplitStatements("--", ddlStr)
+	ddls := util.SplitStatements("--", ddlStr, backslashEscapes)
 	const interval = 500 * time.Millisecond
 	retryer := retry.New(ctx, retry.NewConfig(interval, interval, retry.WithMaxRetries(len(ddls))))
 	if err := retryer.Do(func(ctx context.Context) error {
diff --git a/pkg/internal/util/split_statements.go b/pkg/internal/util/split_statements.go
index d8b684d..2a60f2a 100644
--- a/pkg/internal/util/split_statements.go
+++ b/pkg/internal/util/split_statements.go
@@ -7,7 +7,8 @@ import (
 // SplitStatements splits input into the statements terminated by a semicolon.
 // Comments (from commentPrefix to the end of the line) and empty lines are removed,
 // except inside quoted literals and identifiers, which are kept as they are.
-func SplitStatements(commentPrefix, input string) []string {
+// backslashEscapes tells whether a backslash escapes the next character of a literal.
+func SplitStatements(commentPrefix, input string, backslashEscapes bool) []string {
 	var (
 		statements []string
 		stmt, line strings.Builder
@@ -36,7 +37,10 @@ func SplitStatements(commentPrefix, input string) []string {
 		switch {
 		case quote != 0:
 			line.WriteByte(ch)
-			if ch == quote {
+			if backslashEscapes && ch == '\\' && quote != '`' && i+1 < len(input) {
+				i++
+				line.WriteByte(input[i])
+			} else if ch == quote {
 				quote = 0
 			}
 		case ch == '\'' || ch == '"' || ch == '`':
-- 
2.43.0


From a03a01ad3cfb82750ec38ad5744f2c272c2ff6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:52 +0000
Subject: [PATCH 24/69] fix: struct tags written as interpreted string literals
 were ignored

---
 pkg/internal/lang/go/parse.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index d5347d8..b10f4bd 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -11,6 +11,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"sort"
+	"strconv"
 	"strings"
 	"unicode"
 
@@ -165,7 +166,12 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 				fieldName := getFieldName(field)
 				column := &generator.CreateTableColumn{}
 
-				tag := reflect.StructTag(strings.Trim(field.Tag.Value, "`"))
+				// NOTE: the tag may be written as a raw (`...`) or as an interpreted ("...") string literal.
+				tagValue, err := strconv.Unquote(field.Tag.Value)
+				if err != nil {
+					return nil, apperr.Errorf("strconv.Unquote: %s: %w", fset.Position(field.Tag.Pos()), err)
+				}
+				tag := reflect.StructTag(tagValue)
 
 				// column name
 				switch columnName := tag.Get(config.ColumnTagGo()); columnName {
-- 
2.43.0


From aea360515e9d8531415915da87ddd8f6376230c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:51 +0000
Subject: [PATCH 25/69] fix: a removed MySQL table comment was left in place

---
 pkg/ddl/mysql/diff_create_table.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 9ec58af..82797f8 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -190,6 +190,10 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			continue
 		}
 		afterOption := findOptionByName(beforeOption.Name, after.Options)
+		if afterOption == nil && strings.ToUpper(beforeOption.Name) == "COMMENT" {
+			// NOTE: a table without COMMENT is a table whose comment is empty.
+			afterOption = &Option{Name: beforeOption.Name, Value: (&Expr{}).Append(NewRawIdent("''"))}
+		}
 		if afterOption != nil {
 			if beforeOption.StringForDiff() != afterOption.StringForDiff() {
 				// ALTER TABLE table_name option_name=option_value;
-- 
2.43.0


From db5906a3a8ff2620db6c4b57e69c69109b4e8719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:08 +0000
Subject: [PATCH 26/69] fix: a quoted literal or name lost its own quotation
 marks at the ends when compared

'a' and 'a''' and '' and '''' were taken for the same value, so the change
between them was not planned.
---
 pkg/ddl/cockroachdb/parser.go | 2 +-
 pkg/ddl/mysql/parser.go       | 2 +-
 pkg/ddl/postgres/parser.go    | 2 +-
 pkg/ddl/spanner/parser.go     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 58d6479..e64e8ef 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -24,7 +24,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 7a222c3..913133a 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -23,7 +23,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index bf37537..61ab50b 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -24,7 +24,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index db9d8e9..023819f 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -23,7 +23,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
-- 
2.43.0


From 61daa84706eb579b800017e94c30a9a40f766ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:23 +0000
Subject: [PATCH 27/69] fix: a primary key was dropped only after its columns
 had been changed

A column taken out of the primary key and made nullable in one migration
gave a plan that PostgreSQL and MySQL reject (column is in a primary key).
---
 pkg/ddl/cockroachdb/diff_create_table.go | 43 +++++++++++++++++-------
 pkg/ddl/mysql/diff_create_table.go       | 43 +++++++++++++++++-------
 pkg/ddl/postgres/diff_create_table.go    | 43 +++++++++++++++++-------
 3 files changed, 93 insertions(+), 36 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index b3b9b0f..1b4234f 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -95,6 +95,17 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			} //diff:ignore-line-postgres-cockroach
 			continue
 		}
+		if isPrimaryKeyChanged(beforeConstraint, afterConstraint) {
+			// NOTE: the primary key is dropped before its columns are changed or dropped, and added again after that.
+			// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
+			result.Stmts = append(result.Stmts, &AlterTableStmt{
+				Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
+				Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
+				Action: &DropConstraint{
+					Name: beforeConstraint.GetName(),
+				},
+			})
+		}
 	}
 
 	config.diffCreateTableColumn(result, before, after)
@@ -125,24 +136,23 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 				default: //diff:ignore-line-postgres-cockroach
 					// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
 					// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
-					result.Stmts = append(
-						result.Stmts,
-						&AlterTableStmt{
+					if !isPrimaryKeyChanged(beforeConstraint, afterConstraint) {
+						result.Stmts = append(result.Stmts, &AlterTableStmt{
 							Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
 							Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
 							Action: &DropConstraint{
 								Name: beforeConstraint.GetName(),
 							},
+						})
+					}
+					result.Stmts = append(result.Stmts, &AlterTableStmt{
+						Comment: simplediff.Diff("", afterConstraint.String()).String(),
+						Name:    after.Name,
+						Action: &AddConstraint{
+							Constraint: afterConstraint,
+							NotValid:   config.UseAlterTableAddConstraintNotValid,
 						},
-						&AlterTableStmt{
-							Comment: simplediff.Diff("", afterConstraint.String()).String(),
-							Name:    after.Name,
-							Action: &AddConstraint{
-								Constraint: afterConstraint,
-								NotValid:   config.UseAlterTableAddConstraintNotValid,
-							},
-						},
-					)
+					})
 				} //diff:ignore-line-postgres-cockroach
 			}
 			continue
@@ -182,6 +192,15 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	return result, nil
 }
 
+// isPrimaryKeyChanged returns true if the constraint is a primary key of which the definition is changed.
+func isPrimaryKeyChanged(before, after Constraint) bool {
+	if before == nil || after == nil {
+		return false
+	}
+	_, ok := before.(*PrimaryKeyConstraint)
+	return ok && before.StringForDiff() != after.StringForDiff()
+}
+
 //nolint:funlen,cyclop
 func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, after *CreateTableStmt) {
 	for _, beforeColumn := range before.Columns {
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 82797f8..bc8c5b6 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -98,6 +98,17 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			}
 			continue
 		}
+		if isPrimaryKeyChanged(beforeConstraint, afterConstraint) {
+			// NOTE: the primary key is dropped before its columns are changed or dropped, and added again after that.
+			// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
+			result.Stmts = append(result.Stmts, &AlterTableStmt{
+				Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
+				Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
+				Action: &DropConstraint{
+					Name: beforeConstraint.GetName(),
+				},
+			})
+		}
 	}
 
 	config.diffCreateTableColumn(result, before, after)
@@ -131,24 +142,23 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 				default:
 					// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
 					// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
-					result.Stmts = append(
-						result.Stmts,
-						&AlterTableStmt{
+					if !isPrimaryKeyChanged(beforeConstraint, afterConstraint) {
+						result.Stmts = append(result.Stmts, &AlterTableStmt{
 							Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
 							Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
 							Action: &DropConstraint{
 								Name: beforeConstraint.GetName(),
 							},
+						})
+					}
+					result.Stmts = append(result.Stmts, &AlterTableStmt{
+						Comment: simplediff.Diff("", afterConstraint.String()).String(),
+						Name:    after.Name,
+						Action: &AddConstraint{
+							Constraint: afterConstraint,
+							NotValid:   config.UseAlterTableAddConstraintNotValid,
 						},
-						&AlterTableStmt{
-							Comment: simplediff.Diff("", afterConstraint.String()).String(),
-							Name:    after.Name,
-							Action: &AddConstraint{
-								Constraint: afterConstraint,
-								NotValid:   config.UseAlterTableAddConstraintNotValid,
-							},
-						},
-					)
+					})
 				}
 			}
 			continue
@@ -232,6 +242,15 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	return result, nil
 }
 
+// isPrimaryKeyChanged returns true if the constraint is a primary key of which the definition is changed.
+func isPrimaryKeyChanged(before, after Constraint) bool {
+	if before == nil || after == nil {
+		return false
+	}
+	_, ok := before.(*PrimaryKeyConstraint)
+	return ok && before.StringForDiff() != after.StringForDiff()
+}
+
 //nolint:funlen,cyclop
 func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, after *CreateTableStmt) {
 	for _, beforeColumn := range before.Columns {
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index 37fbc47..7aa7269 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -85,6 +85,17 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			})
 			continue
 		}
+		if isPrimaryKeyChanged(beforeConstraint, afterConstraint) {
+			// NOTE: the primary key is dropped before its columns are changed or dropped, and added again after that.
+			// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
+			result.Stmts = append(result.Stmts, &AlterTableStmt{
+				Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
+				Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
+				Action: &DropConstraint{
+					Name: beforeConstraint.GetName(),
+				},
+			})
+		}
 	}
 
 	config.diffCreateTableColumn(result, before, after)
@@ -95,24 +106,23 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
 				// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
 				// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
-				result.Stmts = append(
-					result.Stmts,
-					&AlterTableStmt{
+				if !isPrimaryKeyChanged(beforeConstraint, afterConstraint) {
+					result.Stmts = append(result.Stmts, &AlterTableStmt{
 						Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
 						Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
 						Action: &DropConstraint{
 							Name: beforeConstraint.GetName(),
 						},
+					})
+				}
+				result.Stmts = append(result.Stmts, &AlterTableStmt{
+					Comment: simplediff.Diff("", afterConstraint.String()).String(),
+					Name:    after.Name,
+					Action: &AddConstraint{
+						Constraint: afterConstraint,
+						NotValid:   config.UseAlterTableAddConstraintNotValid,
 					},
-					&AlterTableStmt{
-						Comment: simplediff.Diff("", afterConstraint.String()).String(),
-						Name:    after.Name,
-						Action: &AddConstraint{
-							Constraint: afterConstraint,
-							NotValid:   config.UseAlterTableAddConstraintNotValid,
-						},
-					},
-				)
+				})
 			}
 			continue
 		}
@@ -137,6 +147,15 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	return result, nil
 }
 
+// isPrimaryKeyChanged returns true if the constraint is a primary key of which the definition is changed.
+func isPrimaryKeyChanged(before, after Constraint) bool {
+	if before == nil || after == nil {
+		return false
+	}
+	_, ok := before.(*PrimaryKeyConstraint)
+	return ok && before.StringForDiff() != after.StringForDiff()
+}
+
 //nolint:funlen,cyclop
 func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, after *CreateTableStmt) {
 	for _, beforeColumn := range before.Columns {
-- 
2.43.0


From d23e21d6fac23b1c5ef321eee6198453fda7cad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:33 +0000
Subject: [PATCH 28/69] fix: a Spanner CREATE TABLE that ends after a comma was
 accepted

---
 pkg/ddl/spanner/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 023819f..1846e0a 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -323,7 +323,9 @@ LabelTableOptions:
 
 			createTableStmt.RowDeletionPolicy = opt
 		case TOKEN_COMMA:
-			// do nothing
+			if err := p.checkPeekToken(TOKEN_INTERLEAVE, TOKEN_ROW); err != nil {
+				return nil, apperr.Errorf(errFmtPrefix+"checkPeekToken: %w", err)
+			}
 		case TOKEN_SEMICOLON, TOKEN_EOF:
 			break LabelTableOptions
 		default:
-- 
2.43.0


From 055b56ab39e45f73e234a5343daf46b63e84d476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:16 +0000
Subject: [PATCH 29/69] fix: a plan of more than 34 statements was retried
 without pause after 34 passes

---
 pkg/ddlctl/apply/ddlctl_apply.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index 0eb74d8..e5826ad 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -206,7 +206,9 @@ func splitExec(
 ) error {
 	ddls := util.SplitStatements("--", ddlStr, backslashEscapes)
 	const interval = 500 * time.Millisecond
-	retryer := retry.New(ctx, retry.NewConfig(interval, interval, retry.WithMaxRetries(len(ddls))))
+	// NOTE: The default backoff shifts the interval by the number of retries, which overflows after 34 retries.
+	backoff := retry.WithBackoff(func(interval time.Duration, _ int) time.Duration { return interval })
+	retryer := retry.New(ctx, retry.NewConfig(interval, interval, retry.WithMaxRetries(len(ddls)), backoff))
 	if err := retryer.Do(func(ctx context.Context) error {
 		var outerErr error
 		for _, q := range ddls {
-- 
2.43.0


From cf6e9a3422ccf337169b8e2b5f4445438c99c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:13 +0000
Subject: [PATCH 30/69] fix: VARCHAR(n) and CHARACTER VARYING(n) were planned
 as a type change on PostgreSQL

---
 pkg/ddl/postgres/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 61ab50b..f3f792d 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -673,6 +673,9 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		p.nextToken() // current = PRECISION
 		dataType.Name += " " + p.currentToken.Literal.String()
 		dataType.Type = TOKEN_DOUBLE_PRECISION
+	case TOKEN_VARYING: // VARCHAR                    //diff:ignore-line-postgres-cockroach
+		dataType.Name = p.currentToken.Literal.String() //diff:ignore-line-postgres-cockroach
+		dataType.Type = TOKEN_CHARACTER_VARYING         //diff:ignore-line-postgres-cockroach
 	case TOKEN_CHARACTER:
 		dataType.Name = p.currentToken.Literal.String()
 		if err := p.checkPeekToken(TOKEN_VARYING); err != nil {
-- 
2.43.0


From b8b8aeaf062c5fa2cb5b1736c36fffc1d44febca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:00 +0000
Subject: [PATCH 31/69] fix: a primary key column written without NOT NULL was
 always planned to become nullable

---
 pkg/ddl/cockroachdb/diff_create_table.go | 21 ++++++++++++++++++++-
 pkg/ddl/mysql/diff_create_table.go       | 23 +++++++++++++++++++++--
 pkg/ddl/postgres/diff_create_table.go    | 21 ++++++++++++++++++++-
 3 files changed, 61 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index 1b4234f..6080139 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -201,6 +201,25 @@ func isPrimaryKeyChanged(before, after Constraint) bool {
 	return ok && before.StringForDiff() != after.StringForDiff()
 }
 
+// isNotNullColumn returns true if the column cannot be NULL, by itself or because it is a part of the primary key.
+func isNotNullColumn(column *Column, constraints Constraints) bool {
+	if column.NotNull {
+		return true
+	}
+	for _, constraint := range constraints {
+		pk, ok := constraint.(*PrimaryKeyConstraint)
+		if !ok {
+			continue
+		}
+		for _, pkColumn := range pk.Columns {
+			if pkColumn.Ident.Name == column.Name.Name {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 //nolint:funlen,cyclop
 func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, after *CreateTableStmt) {
 	for _, beforeColumn := range before.Columns {
@@ -257,7 +276,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 		}
 
 		switch {
-		case beforeColumn.NotNull && !afterColumn.NotNull:
+		case isNotNullColumn(beforeColumn, before.Constraints) && !isNotNullColumn(afterColumn, after.Constraints):
 			// ALTER TABLE table_name ALTER COLUMN column_name DROP NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index bc8c5b6..e6d3064 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -251,6 +251,25 @@ func isPrimaryKeyChanged(before, after Constraint) bool {
 	return ok && before.StringForDiff() != after.StringForDiff()
 }
 
+// isNotNullColumn returns true if the column cannot be NULL, by itself or because it is a part of the primary key.
+func isNotNullColumn(column *Column, constraints Constraints) bool {
+	if column.NotNull {
+		return true
+	}
+	for _, constraint := range constraints {
+		pk, ok := constraint.(*PrimaryKeyConstraint)
+		if !ok {
+			continue
+		}
+		for _, pkColumn := range pk.Columns {
+			if pkColumn.Ident.Name == column.Name.Name {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 //nolint:funlen,cyclop
 func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, after *CreateTableStmt) {
 	for _, beforeColumn := range before.Columns {
@@ -272,7 +291,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 		if beforeColumn.DataType.StringForDiff() != afterColumn.DataType.StringForDiff() ||
 			beforeColumn.CharacterSet.StringForDiff() != afterColumn.CharacterSet.StringForDiff() ||
 			beforeColumn.Collate.StringForDiff() != afterColumn.Collate.StringForDiff() ||
-			beforeColumn.NotNull != afterColumn.NotNull ||
+			isNotNullColumn(beforeColumn, before.Constraints) != isNotNullColumn(afterColumn, after.Constraints) ||
 			(!dropDefault && beforeColumn.Default.StringForDiff() != afterColumn.Default.StringForDiff()) ||
 			beforeColumn.AutoIncrement != afterColumn.AutoIncrement ||
 			beforeColumn.OnAction != afterColumn.OnAction ||
@@ -286,7 +305,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 					DataType:      afterColumn.DataType,
 					CharacterSet:  afterColumn.CharacterSet,
 					Collate:       afterColumn.Collate,
-					NotNull:       afterColumn.NotNull,
+					NotNull:       isNotNullColumn(afterColumn, after.Constraints),
 					AutoIncrement: afterColumn.AutoIncrement,
 					Default:       afterColumn.Default,
 					OnAction:      afterColumn.OnAction,
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index 7aa7269..268aef3 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -156,6 +156,25 @@ func isPrimaryKeyChanged(before, after Constraint) bool {
 	return ok && before.StringForDiff() != after.StringForDiff()
 }
 
+// isNotNullColumn returns true if the column cannot be NULL, by itself or because it is a part of the primary key.
+func isNotNullColumn(column *Column, constraints Constraints) bool {
+	if column.NotNull {
+		return true
+	}
+	for _, constraint := range constraints {
+		pk, ok := constraint.(*PrimaryKeyConstraint)
+		if !ok {
+			continue
+		}
+		for _, pkColumn := range pk.Columns {
+			if pkColumn.Ident.Name == column.Name.Name {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 //nolint:funlen,cyclop
 func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, after *CreateTableStmt) {
 	for _, beforeColumn := range before.Columns {
@@ -207,7 +226,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 		}
 
 		switch {
-		case beforeColumn.NotNull && !afterColumn.NotNull:
+		case isNotNullColumn(beforeColumn, before.Constraints) && !isNotNullColumn(afterColumn, after.Constraints):
 			// ALTER TABLE table_name ALTER COLUMN column_name DROP NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
-- 
2.43.0


From 06c0a2266efac6ee613417428de48af34bb7711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:12 +0000
Subject: [PATCH 32/69] fix: a MySQL primary key column written without NOT
 NULL was planned as NULL, which MySQL rejects

---
 pkg/ddl/mysql/diff_create_table.go | 23 ++---------------------
 pkg/ddl/mysql/parser.go            | 13 +++++++++++++
 2 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index e6d3064..bc8c5b6 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -251,25 +251,6 @@ func isPrimaryKeyChanged(before, after Constraint) bool {
 	return ok && before.StringForDiff() != after.StringForDiff()
 }
 
-// isNotNullColumn returns true if the column cannot be NULL, by itself or because it is a part of the primary key.
-func isNotNullColumn(column *Column, constraints Constraints) bool {
-	if column.NotNull {
-		return true
-	}
-	for _, constraint := range constraints {
-		pk, ok := constraint.(*PrimaryKeyConstraint)
-		if !ok {
-			continue
-		}
-		for _, pkColumn := range pk.Columns {
-			if pkColumn.Ident.Name == column.Name.Name {
-				return true
-			}
-		}
-	}
-	return false
-}
-
 //nolint:funlen,cyclop
 func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, after *CreateTableStmt) {
 	for _, beforeColumn := range before.Columns {
@@ -291,7 +272,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 		if beforeColumn.DataType.StringForDiff() != afterColumn.DataType.StringForDiff() ||
 			beforeColumn.CharacterSet.StringForDiff() != afterColumn.CharacterSet.StringForDiff() ||
 			beforeColumn.Collate.StringForDiff() != afterColumn.Collate.StringForDiff() ||
-			isNotNullColumn(beforeColumn, before.Constraints) != isNotNullColumn(afterColumn, after.Constraints) ||
+			beforeColumn.NotNull != afterColumn.NotNull ||
 			(!dropDefault && beforeColumn.Default.StringForDiff() != afterColumn.Default.StringForDiff()) ||
 			beforeColumn.AutoIncrement != afterColumn.AutoIncrement ||
 			beforeColumn.OnAction != afterColumn.OnAction ||
@@ -305,7 +286,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 					DataType:      afterColumn.DataType,
 					CharacterSet:  afterColumn.CharacterSet,
 					Collate:       afterColumn.Collate,
-					NotNull:       isNotNullColumn(afterColumn, after.Constraints),
+					NotNull:       afterColumn.NotNull,
 					AutoIncrement: afterColumn.AutoIncrement,
 					Default:       afterColumn.Default,
 					OnAction:      afterColumn.OnAction,
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 913133a..5b6d6f1 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -188,6 +188,19 @@ LabelColumns:
 		}
 	}
 
+	// NOTE: the columns of a primary key are NOT NULL even if they are not declared as such, and MySQL rejects them if they are declared as NULL.
+	for _, constraint := range createTableStmt.Constraints {
+		if pk, ok := constraint.(*PrimaryKeyConstraint); ok {
+			for _, pkColumn := range pk.Columns {
+				for _, column := range createTableStmt.Columns {
+					if strings.EqualFold(column.Name.Name, pkColumn.Ident.Name) {
+						column.NotNull = true
+					}
+				}
+			}
+		}
+	}
+
 LabelTableOptions:
 	for {
 		opt := &Option{}
-- 
2.43.0


From 8a41534aabcb7a0f07e57256605f360aa4545c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:39 +0000
Subject: [PATCH 33/69] fix: a PostgreSQL or CockroachDB table named without
 the schema public was dropped and created again

---
 pkg/ddl/cockroachdb/ddl_index_create.go  | 2 +-
 pkg/ddl/cockroachdb/ddl_table.go         | 8 ++++++++
 pkg/ddl/cockroachdb/ddl_table_create.go  | 2 +-
 pkg/ddl/cockroachdb/diff.go              | 2 +-
 pkg/ddl/cockroachdb/diff_create_table.go | 2 +-
 pkg/ddl/postgres/ddl_index_create.go     | 2 +-
 pkg/ddl/postgres/ddl_table.go            | 8 ++++++++
 pkg/ddl/postgres/ddl_table_create.go     | 2 +-
 pkg/ddl/postgres/diff.go                 | 2 +-
 pkg/ddl/postgres/diff_create_table.go    | 2 +-
 10 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_index_create.go b/pkg/ddl/cockroachdb/ddl_index_create.go
index 7ade1b0..2ed66e3 100644
--- a/pkg/ddl/cockroachdb/ddl_index_create.go
+++ b/pkg/ddl/cockroachdb/ddl_index_create.go
@@ -63,7 +63,7 @@ func (s *CreateIndexStmt) StringForDiff() string {
 		str += "UNIQUE "
 	}
 	str += "INDEX "
-	str += s.Name.StringForDiff() + " ON " + s.TableName.StringForDiff()
+	str += s.Name.StringForDiff() + " ON " + s.TableName.nameForDiff()
 	if s.UsingPreColumns != nil {
 		str += " " + s.UsingPreColumns.String()
 	}
diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index 2f3d98c..5ba87ad 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -303,6 +303,14 @@ func (t *ObjectName) StringForDiff() string {
 	return t.Name.StringForDiff()
 }
 
+// nameForDiff is the name by which the object is looked up: without a schema it is in the schema public.
+func (t *ObjectName) nameForDiff() string {
+	if t != nil && t.Schema != nil && t.Schema.Name == "public" {
+		return t.Name.StringForDiff()
+	}
+	return t.StringForDiff()
+}
+
 type Column struct {
 	Name       *Ident
 	DataType   *DataType
diff --git a/pkg/ddl/cockroachdb/ddl_table_create.go b/pkg/ddl/cockroachdb/ddl_table_create.go
index bb1847c..12a150b 100644
--- a/pkg/ddl/cockroachdb/ddl_table_create.go
+++ b/pkg/ddl/cockroachdb/ddl_table_create.go
@@ -21,7 +21,7 @@ type CreateTableStmt struct {
 }
 
 func (s *CreateTableStmt) GetNameForDiff() string {
-	return s.Name.StringForDiff()
+	return s.Name.nameForDiff()
 }
 
 //nolint:cyclop
diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index 80ef979..1750359 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -154,7 +154,7 @@ func findStmtByTypeAndName(stmt Stmt, stmts []Stmt) Stmt { //nolint:ireturn
 
 func findCreateTableStmtByTableName(tableName *ObjectName, stmts []Stmt) *CreateTableStmt {
 	for _, s := range stmts {
-		if createTableStmt, ok := s.(*CreateTableStmt); ok && createTableStmt.Name.StringForDiff() == tableName.StringForDiff() {
+		if createTableStmt, ok := s.(*CreateTableStmt); ok && createTableStmt.Name.nameForDiff() == tableName.nameForDiff() {
 			return createTableStmt
 		}
 	}
diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index 6080139..c238bac 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -58,7 +58,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 		return nil, apperr.Errorf("before: %s, after: %s: %w", before.GetNameForDiff(), after.GetNameForDiff(), ddl.ErrNoDifference)
 	}
 
-	if before.Name.StringForDiff() != after.Name.StringForDiff() {
+	if before.Name.nameForDiff() != after.Name.nameForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
 		rename := &RenameTable{
 			NewName: after.Name,
diff --git a/pkg/ddl/postgres/ddl_index_create.go b/pkg/ddl/postgres/ddl_index_create.go
index 8790179..afc78ab 100644
--- a/pkg/ddl/postgres/ddl_index_create.go
+++ b/pkg/ddl/postgres/ddl_index_create.go
@@ -59,7 +59,7 @@ func (s *CreateIndexStmt) StringForDiff() string {
 		str += "UNIQUE "
 	}
 	str += "INDEX "
-	str += s.Name.StringForDiff() + " ON " + s.TableName.StringForDiff()
+	str += s.Name.StringForDiff() + " ON " + s.TableName.nameForDiff()
 	// TODO: add USING
 	str += " ("
 	for i, c := range s.Columns {
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index ed3b9a0..d3cd86b 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -272,6 +272,14 @@ func (t *ObjectName) StringForDiff() string {
 	return t.Name.StringForDiff()
 }
 
+// nameForDiff is the name by which the object is looked up: without a schema it is in the schema public.
+func (t *ObjectName) nameForDiff() string {
+	if t != nil && t.Schema != nil && t.Schema.Name == "public" {
+		return t.Name.StringForDiff()
+	}
+	return t.StringForDiff()
+}
+
 type Column struct {
 	Name     *Ident
 	DataType *DataType
diff --git a/pkg/ddl/postgres/ddl_table_create.go b/pkg/ddl/postgres/ddl_table_create.go
index 3f9d63e..5049ece 100644
--- a/pkg/ddl/postgres/ddl_table_create.go
+++ b/pkg/ddl/postgres/ddl_table_create.go
@@ -21,7 +21,7 @@ type CreateTableStmt struct {
 }
 
 func (s *CreateTableStmt) GetNameForDiff() string {
-	return s.Name.StringForDiff()
+	return s.Name.nameForDiff()
 }
 
 //nolint:cyclop
diff --git a/pkg/ddl/postgres/diff.go b/pkg/ddl/postgres/diff.go
index c4a4b48..c3f5a5f 100644
--- a/pkg/ddl/postgres/diff.go
+++ b/pkg/ddl/postgres/diff.go
@@ -154,7 +154,7 @@ func findStmtByTypeAndName(stmt Stmt, stmts []Stmt) Stmt { //nolint:ireturn
 
 func findCreateTableStmtByTableName(tableName *ObjectName, stmts []Stmt) *CreateTableStmt {
 	for _, s := range stmts {
-		if createTableStmt, ok := s.(*CreateTableStmt); ok && createTableStmt.Name.StringForDiff() == tableName.StringForDiff() {
+		if createTableStmt, ok := s.(*CreateTableStmt); ok && createTableStmt.Name.nameForDiff() == tableName.nameForDiff() {
 			return createTableStmt
 		}
 	}
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index 268aef3..7c23dc1 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -57,7 +57,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 		return nil, apperr.Errorf("before: %s, after: %s: %w", before.GetNameForDiff(), after.GetNameForDiff(), ddl.ErrNoDifference)
 	}
 
-	if before.Name.StringForDiff() != after.Name.StringForDiff() {
+	if before.Name.nameForDiff() != after.Name.nameForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
 		rename := &RenameTable{
 			NewName: after.Name,
-- 
2.43.0


From 480a39d469635483a8903f8ddede20af7945222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:29 +0000
Subject: [PATCH 34/69] fix: a new table was created before the altered tables
 its foreign keys refer to

---
 pkg/ddl/cockroachdb/diff.go | 7 +++++--
 pkg/ddl/mysql/diff.go       | 7 +++++--
 pkg/ddl/postgres/diff.go    | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index 1750359..096119d 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -61,17 +61,19 @@ func Diff(before, after *DDL) (*DDL, error) {
 
 	// CREATE TABLE table_name
 	// CREATE INDEX index_name ... MEMO: an index of an existing table may use a column that is yet to be added.
+	// MEMO: a foreign key of a new table may refer to a column or key of an existing table that is yet to be added.
+	createTableStmts := make([]Stmt, 0)
 	createIndexStmts := make([]Stmt, 0)
 	for _, stmt := range onlyLeftStmt(after, before) {
 		switch afterStmt := stmt.(type) {
 		case *CreateTableStmt:
-			result.Stmts = append(result.Stmts, afterStmt)
+			createTableStmts = append(createTableStmts, afterStmt)
 		case *CreateIndexStmt:
 			if findCreateTableStmtByTableName(afterStmt.TableName, before.Stmts) != nil {
 				createIndexStmts = append(createIndexStmts, afterStmt)
 				continue
 			}
-			result.Stmts = append(result.Stmts, afterStmt)
+			createTableStmts = append(createTableStmts, afterStmt)
 		default:
 			return nil, apperr.Errorf("%s: %T: %w", afterStmt.GetNameForDiff(), afterStmt, ddl.ErrNotSupported)
 		}
@@ -122,6 +124,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	result.Stmts = append(dropForeignKeyStmts, result.Stmts...)
 	result.Stmts = append(result.Stmts, alterStmts...)
 	result.Stmts = append(result.Stmts, createIndexStmts...)
+	result.Stmts = append(result.Stmts, createTableStmts...)
 	result.Stmts = append(result.Stmts, addForeignKeyStmts...)
 
 	if len(result.Stmts) == 0 {
diff --git a/pkg/ddl/mysql/diff.go b/pkg/ddl/mysql/diff.go
index a972aa9..0b57085 100644
--- a/pkg/ddl/mysql/diff.go
+++ b/pkg/ddl/mysql/diff.go
@@ -61,17 +61,19 @@ func Diff(before, after *DDL) (*DDL, error) {
 
 	// CREATE TABLE table_name
 	// CREATE INDEX index_name ... MEMO: an index of an existing table may use a column that is yet to be added.
+	// MEMO: a foreign key of a new table may refer to a column or key of an existing table that is yet to be added.
+	createTableStmts := make([]Stmt, 0)
 	createIndexStmts := make([]Stmt, 0)
 	for _, stmt := range onlyLeftStmt(after, before) {
 		switch afterStmt := stmt.(type) {
 		case *CreateTableStmt:
-			result.Stmts = append(result.Stmts, afterStmt)
+			createTableStmts = append(createTableStmts, afterStmt)
 		case *CreateIndexStmt:
 			if findCreateTableStmtByTableName(afterStmt.TableName, before.Stmts) != nil {
 				createIndexStmts = append(createIndexStmts, afterStmt)
 				continue
 			}
-			result.Stmts = append(result.Stmts, afterStmt)
+			createTableStmts = append(createTableStmts, afterStmt)
 		default:
 			return nil, apperr.Errorf("%s: %T: %w", afterStmt.GetNameForDiff(), afterStmt, ddl.ErrNotSupported)
 		}
@@ -122,6 +124,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	result.Stmts = append(dropForeignKeyStmts, result.Stmts...)
 	result.Stmts = append(result.Stmts, alterStmts...)
 	result.Stmts = append(result.Stmts, createIndexStmts...)
+	result.Stmts = append(result.Stmts, createTableStmts...)
 	result.Stmts = append(result.Stmts, addForeignKeyStmts...)
 
 	if len(result.Stmts) == 0 {
diff --git a/pkg/ddl/postgres/diff.go b/pkg/ddl/postgres/diff.go
index c3f5a5f..5837147 100644
--- a/pkg/ddl/postgres/diff.go
+++ b/pkg/ddl/postgres/diff.go
@@ -61,17 +61,19 @@ func Diff(before, after *DDL) (*DDL, error) {
 
 	// CREATE TABLE table_name
 	// CREATE INDEX index_name ... MEMO: an index of an existing table may use a column that is yet to be added.
+	// MEMO: a foreign key of a new table may refer to a column or key of an existing table that is yet to be added.
+	createTableStmts := make([]Stmt, 0)
 	createIndexStmts := make([]Stmt, 0)
 	for _, stmt := range onlyLeftStmt(after, before) {
 		switch afterStmt := stmt.(type) {
 		case *CreateTableStmt:
-			result.Stmts = append(result.Stmts, afterStmt)
+			createTableStmts = append(createTableStmts, afterStmt)
 		case *CreateIndexStmt:
 			if findCreateTableStmtByTableName(afterStmt.TableName, before.Stmts) != nil {
 				createIndexStmts = append(createIndexStmts, afterStmt)
 				continue
 			}
-			result.Stmts = append(result.Stmts, afterStmt)
+			createTableStmts = append(createTableStmts, afterStmt)
 		default:
 			return nil, apperr.Errorf("%s: %T: %w", afterStmt.GetNameForDiff(), afterStmt, ddl.ErrNotSupported)
 		}
@@ -122,6 +124,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	result.Stmts = append(dropForeignKeyStmts, result.Stmts...)
 	result.Stmts = append(result.Stmts, alterStmts...)
 	result.Stmts = append(result.Stmts, createIndexStmts...)
+	result.Stmts = append(result.Stmts, createTableStmts...)
 	result.Stmts = append(result.Stmts, addForeignKeyStmts...)
 
 	if len(result.Stmts) == 0 {
-- 
2.43.0


From b41d64af3e3e1d64daff274a4a86c6cd7b9126f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:02 +0000
Subject: [PATCH 35/69] fix: a nullable MySQL column without DEFAULT was
 planned to lose its DEFAULT NULL at every run

---
 pkg/ddl/mysql/diff_create_table.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index bc8c5b6..fc4a5f8 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -267,13 +267,15 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 			continue
 		}
 
-		dropDefault := beforeColumn.Default != nil && afterColumn.Default == nil
+		// NOTE: SHOW CREATE TABLE shows a nullable column without default value as DEFAULT NULL.
+		implicitDefaultNull := afterColumn.Default == nil && strings.EqualFold(beforeColumn.Default.StringForDiff(), "DEFAULT NULL")
+		dropDefault := beforeColumn.Default != nil && afterColumn.Default == nil && !implicitDefaultNull
 
 		if beforeColumn.DataType.StringForDiff() != afterColumn.DataType.StringForDiff() ||
 			beforeColumn.CharacterSet.StringForDiff() != afterColumn.CharacterSet.StringForDiff() ||
 			beforeColumn.Collate.StringForDiff() != afterColumn.Collate.StringForDiff() ||
 			beforeColumn.NotNull != afterColumn.NotNull ||
-			(!dropDefault && beforeColumn.Default.StringForDiff() != afterColumn.Default.StringForDiff()) ||
+			(!dropDefault && !implicitDefaultNull && beforeColumn.Default.StringForDiff() != afterColumn.Default.StringForDiff()) ||
 			beforeColumn.AutoIncrement != afterColumn.AutoIncrement ||
 			beforeColumn.OnAction != afterColumn.OnAction ||
 			beforeColumn.Comment != afterColumn.Comment {
-- 
2.43.0


From 0ec295a204c39aa6d1abbad641f53623d113fe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:02 +0000
Subject: [PATCH 36/69] fix: MySQL type synonyms (BOOLEAN, NUMERIC, DOUBLE
 PRECISION, REAL) were planned as type changes at every run

---
 pkg/ddl/mysql/ddl.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/ddl/mysql/ddl.go b/pkg/ddl/mysql/ddl.go
index bb98943..b1c6855 100644
--- a/pkg/ddl/mysql/ddl.go
+++ b/pkg/ddl/mysql/ddl.go
@@ -136,10 +136,18 @@ func (s *DataType) StringForDiff() string {
 		return ""
 	}
 	var str string
-	if s.Type != "" {
-		str += string(s.Type)
-	} else {
+	switch s.Type { //nolint:exhaustive
+	case "":
 		str += string(TOKEN_ILLEGAL)
+	// MEMO: synonyms; SHOW CREATE TABLE always shows the latter.
+	case TOKEN_BOOLEAN:
+		str += string(TOKEN_TINYINT)
+	case TOKEN_NUMERIC:
+		str += string(TOKEN_DECIMAL)
+	case TOKEN_DOUBLE_PRECISION, TOKEN_REAL:
+		str += string(TOKEN_DOUBLE)
+	default:
+		str += string(s.Type)
 	}
 
 	if s.Expr != nil && len(s.Expr.Idents) > 0 {
-- 
2.43.0


From 15d9792dada66dbbada174707c8ce46de047e016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:02 +0000
Subject: [PATCH 37/69] fix: Spanner STRING(max) and STRING(MAX) were planned
 as a type change at every run

---
 pkg/ddl/spanner/ddl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/spanner/ddl.go b/pkg/ddl/spanner/ddl.go
index cda8dbb..bb35def 100644
--- a/pkg/ddl/spanner/ddl.go
+++ b/pkg/ddl/spanner/ddl.go
@@ -1,6 +1,8 @@
 package spanner
 
 import (
+	"strings"
+
 	stringz "github.com/kunitsucom/util.go/strings"
 
 	"github.com/kunitsucom/ddlctl/pkg/ddl/internal"
@@ -141,7 +143,7 @@ func (s *DataType) StringForDiff() string {
 	if s.Expr != nil && len(s.Expr.Idents) > 0 {
 		str += "("
 		for _, ident := range s.Expr.Idents {
-			str += ident.StringForDiff()
+			str += strings.ToUpper(ident.StringForDiff()) // MEMO: MAX is not case-sensitive.
 		}
 		str += ")"
 	}
-- 
2.43.0


From e6eafe0a08e4b618e526c3ba4a9cd04eda50feee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:02 +0000
Subject: [PATCH 38/69] fix: PostgreSQL and CockroachDB type synonyms (DECIMAL,
 NUMERIC, REAL) were planned as type changes at every run

---
 pkg/ddl/cockroachdb/ddl.go | 12 +++++++++---
 pkg/ddl/postgres/ddl.go    |  9 ++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl.go b/pkg/ddl/cockroachdb/ddl.go
index ac7d8cd..c1ff0af 100644
--- a/pkg/ddl/cockroachdb/ddl.go
+++ b/pkg/ddl/cockroachdb/ddl.go
@@ -132,10 +132,16 @@ func (s *DataType) StringForDiff() string {
 		return ""
 	}
 	var str string
-	if s.Type != "" {
-		str += string(s.Type)
-	} else {
+	switch s.Type { //nolint:exhaustive
+	case "":
 		str += string(TOKEN_ILLEGAL)
+	// MEMO: synonyms; SHOW CREATE always shows the latter.
+	case TOKEN_NUMERIC:
+		str += string(TOKEN_DECIMAL)
+	case TOKEN_REAL:
+		str += string(TOKEN_FLOAT4)
+	default:
+		str += string(s.Type)
 	}
 
 	if s.Expr != nil && len(s.Expr.Idents) > 0 {
diff --git a/pkg/ddl/postgres/ddl.go b/pkg/ddl/postgres/ddl.go
index 9b92e59..8b044d5 100644
--- a/pkg/ddl/postgres/ddl.go
+++ b/pkg/ddl/postgres/ddl.go
@@ -117,10 +117,13 @@ func (s *DataType) StringForDiff() string {
 		return ""
 	}
 	var str string
-	if s.Type != "" {
-		str += string(s.Type)
-	} else {
+	switch s.Type { //nolint:exhaustive
+	case "":
 		str += string(TOKEN_ILLEGAL)
+	case TOKEN_DECIMAL: // MEMO: synonym; information_schema always shows numeric.
+		str += string(TOKEN_NUMERIC)
+	default:
+		str += string(s.Type)
 	}
 
 	if s.Expr != nil && len(s.Expr.Idents) > 0 {
-- 
2.43.0


From 16736cf2f4737d5f50e001e71b0f2749f90dbc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:02 +0000
Subject: [PATCH 39/69] fix: PostgreSQL type timestamp without time zone, as
 information_schema spells it, did not parse

---
 pkg/ddl/postgres/parser.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index f3f792d..94712cf 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -663,6 +663,20 @@ func (p *Parser) parseDataType() (*DataType, error) {
 			dataType.Name += " " + p.currentToken.Literal.String()
 			dataType.Type = TOKEN_TIMESTAMP_WITH_TIME_ZONE //diff:ignore-line-postgres-cockroach
 		} else {
+			if p.isPeekToken(TOKEN_IDENT) && strings.EqualFold(p.peekToken.Literal.Str, "WITHOUT") { //diff:ignore-line-postgres-cockroach
+				p.nextToken()                                          // current = WITHOUT //diff:ignore-line-postgres-cockroach
+				dataType.Name += " " + p.currentToken.Literal.String() //diff:ignore-line-postgres-cockroach
+				if err := p.checkPeekToken(TOKEN_TIME); err != nil {   //diff:ignore-line-postgres-cockroach
+					return nil, apperr.Errorf("checkPeekToken: %w", err) //diff:ignore-line-postgres-cockroach
+				} //diff:ignore-line-postgres-cockroach
+				p.nextToken()                                          // current = TIME //diff:ignore-line-postgres-cockroach
+				dataType.Name += " " + p.currentToken.Literal.String() //diff:ignore-line-postgres-cockroach
+				if err := p.checkPeekToken(TOKEN_ZONE); err != nil {   //diff:ignore-line-postgres-cockroach
+					return nil, apperr.Errorf("checkPeekToken: %w", err) //diff:ignore-line-postgres-cockroach
+				} //diff:ignore-line-postgres-cockroach
+				p.nextToken()                                          // current = ZONE //diff:ignore-line-postgres-cockroach
+				dataType.Name += " " + p.currentToken.Literal.String() //diff:ignore-line-postgres-cockroach
+			} //diff:ignore-line-postgres-cockroach
 			dataType.Type = TOKEN_TIMESTAMP
 		}
 	case TOKEN_DOUBLE:
-- 
2.43.0


From 2cefe9ef61089d7bb3b19ecba47a30cebdb11df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:22 +0000
Subject: [PATCH 40/69] fix: a PostgreSQL default cast to double precision or
 to a timestamp type, as information_schema shows it, did not parse

---
 pkg/ddl/cockroachdb/parser.go | 12 +++++++++++-
 pkg/ddl/postgres/parser.go    | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index e64e8ef..4126360 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -383,7 +383,7 @@ LabelDefault:
 				p.nextToken()
 				continue
 			}
-			if isDataType(p.currentToken.Type) {
+			if isDataType(p.currentToken.Type) || isDataTypeSuffix(p.currentToken.Type) {
 				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
@@ -911,6 +911,16 @@ func isDataType(tokenType TokenType) bool {
 	}
 }
 
+// isDataTypeSuffix reports whether the token continues a data type, e.g. double PRECISION, timestamp WITH TIME ZONE.
+func isDataTypeSuffix(tokenType TokenType) bool {
+	switch tokenType { //nolint:exhaustive
+	case TOKEN_PRECISION, TOKEN_WITH, TOKEN_TIME, TOKEN_ZONE:
+		return true
+	default:
+		return false
+	}
+}
+
 func isConstraint(tokenType TokenType) bool {
 	switch tokenType { //nolint:exhaustive
 	case TOKEN_CONSTRAINT,
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 94712cf..7ec08e3 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -356,7 +356,7 @@ LabelDefault:
 				p.nextToken()
 				continue
 			}
-			if isDataType(p.currentToken.Type) {
+			if isDataType(p.currentToken.Type) || isDataTypeSuffix(p.currentToken.Type) {
 				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
@@ -800,6 +800,16 @@ func isDataType(tokenType TokenType) bool {
 	}
 }
 
+// isDataTypeSuffix reports whether the token continues a data type, e.g. double PRECISION, timestamp WITH TIME ZONE.
+func isDataTypeSuffix(tokenType TokenType) bool {
+	switch tokenType { //nolint:exhaustive
+	case TOKEN_PRECISION, TOKEN_WITH, TOKEN_TIME, TOKEN_ZONE:
+		return true
+	default:
+		return false
+	}
+}
+
 func isConstraint(tokenType TokenType) bool {
 	switch tokenType { //nolint:exhaustive
 	case TOKEN_CONSTRAINT,
-- 
2.43.0


From b34a0d53137782afb381c9b766d1abef5f41877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:22 +0000
Subject: [PATCH 41/69] fix: PostgreSQL and CockroachDB defaults were planned
 as changed at every run because the database shows them with a cast or a type
 annotation

---
 pkg/ddl/cockroachdb/ddl_table.go         |  6 +++-
 pkg/ddl/cockroachdb/diff_create_table.go | 37 +++++++++++++++++++++++-
 pkg/ddl/postgres/ddl_table.go            |  6 +++-
 pkg/ddl/postgres/diff_create_table.go    | 23 ++++++++++++++-
 4 files changed, 68 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index 5ba87ad..b898238 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -386,7 +386,11 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			if s := v.StringForDiff(); v.QuotationMark != "" || strings.ContainsAny(s, "'\"$") {
+				str += s
+			} else { // MEMO: names and keywords are not case-sensitive, e.g. now() and NOW()
+				str += strings.ToLower(s)
+			}
 		}
 		return str
 	}
diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index c238bac..d5d68c4 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -2,6 +2,7 @@ package cockroachdb
 
 import (
 	"reflect"
+	"regexp"
 
 	"github.com/kunitsucom/util.go/exp/diff/simplediff"
 
@@ -263,7 +264,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 					Name: afterColumn.Name,
 				},
 			})
-		case afterColumn.Default != nil && beforeColumn.Default.StringForDiff() != afterColumn.Default.StringForDiff():
+		case afterColumn.Default != nil && !equalDefault(beforeColumn.Default, afterColumn.Default):
 			// ALTER TABLE table_name ALTER COLUMN column_name SET DEFAULT default_value;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
@@ -309,6 +310,40 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 	}
 }
 
+// negativeNumber matches a negative number as CockroachDB shows it.
+var negativeNumber = regexp.MustCompile(`^DEFAULT \( - ([0-9.]+) \)$`) //nolint:gochecknoglobals
+
+// equalDefault reports whether the default values are the same.
+// CockroachDB shows every literal and function call with a type annotation, e.g. 'a':::STRING.
+func equalDefault(before, after *Default) bool {
+	beforeDefault, afterDefault := before.StringForDiff(), after.StringForDiff()
+	if beforeDefault == afterDefault {
+		return true
+	}
+	if before == nil || after == nil || hasTypeAnnotation(after) || !hasTypeAnnotation(before) {
+		return false
+	}
+	idents := make([]*Ident, 0, len(before.Value.Idents))
+	for i := 0; i < len(before.Value.Idents); i++ {
+		if before.Value.Idents[i].StringForDiff() == ":::" {
+			i++ // skip the type
+			continue
+		}
+		idents = append(idents, before.Value.Idents[i])
+	}
+	beforeDefault = (&Default{Value: &Expr{Idents: idents}}).StringForDiff()
+	return beforeDefault == afterDefault || negativeNumber.ReplaceAllString(beforeDefault, "DEFAULT - $1") == afterDefault
+}
+
+func hasTypeAnnotation(def *Default) bool {
+	for _, ident := range def.Value.Idents {
+		if ident.StringForDiff() == ":::" {
+			return true
+		}
+	}
+	return false
+}
+
 func onlyLeftColumn(left, right []*Column) []*Column {
 	onlyLeftColumns := make([]*Column, 0)
 	for _, leftColumn := range left {
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index d3cd86b..5f514ca 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -352,7 +352,11 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			if s := v.StringForDiff(); v.QuotationMark != "" || strings.ContainsAny(s, "'\"$") {
+				str += s
+			} else { // MEMO: names and keywords are not case-sensitive, e.g. now() and NOW()
+				str += strings.ToLower(s)
+			}
 		}
 		return str
 	}
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index 7c23dc1..f926a76 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -2,6 +2,8 @@ package postgres
 
 import (
 	"reflect"
+	"regexp"
+	"strings"
 
 	"github.com/kunitsucom/util.go/exp/diff/simplediff"
 
@@ -213,7 +215,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 					Name: afterColumn.Name,
 				},
 			})
-		case afterColumn.Default != nil && beforeColumn.Default.StringForDiff() != afterColumn.Default.StringForDiff():
+		case afterColumn.Default != nil && !equalDefault(beforeColumn, afterColumn):
 			// ALTER TABLE table_name ALTER COLUMN column_name SET DEFAULT default_value;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
@@ -259,6 +261,25 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 	}
 }
 
+// negativeNumber matches a negative number as PostgreSQL shows it.
+var negativeNumber = regexp.MustCompile(`^DEFAULT '-([0-9.]+)' :: (integer|bigint|numeric)$`) //nolint:gochecknoglobals
+
+// equalDefault reports whether the default values of the columns are the same.
+// PostgreSQL shows a string literal with a cast to the type of its column, e.g. 'a'::text, and a negative number as e.g. '-1'::integer.
+func equalDefault(before, after *Column) bool {
+	beforeDefault, afterDefault := before.Default.StringForDiff(), after.Default.StringForDiff()
+	if beforeDefault == afterDefault {
+		return true
+	}
+	if before.Default == nil || after.Default == nil || before.DataType.StringForDiff() != after.DataType.StringForDiff() {
+		return false
+	}
+	if strings.HasPrefix(afterDefault, "DEFAULT '") && len(after.Default.Value.Idents) == 1 {
+		return beforeDefault == afterDefault+" :: "+strings.ToLower(before.DataType.Name)
+	}
+	return negativeNumber.ReplaceAllString(beforeDefault, "DEFAULT - $1") == afterDefault
+}
+
 func onlyLeftColumn(left, right []*Column) []*Column {
 	onlyLeftColumns := make([]*Column, 0)
 	for _, leftColumn := range left {
-- 
2.43.0


From d4f9ca5ed0c4441416d5bf1ca87a13db267c6a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:24 +0000
Subject: [PATCH 42/69] fix: a SERIAL column of PostgreSQL or CockroachDB was
 planned as changed at every run

---
 pkg/ddl/cockroachdb/diff_create_table.go | 18 ++++++++++++++++++
 pkg/ddl/postgres/diff_create_table.go    | 21 +++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index d5d68c4..6e32494 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -3,6 +3,7 @@ package cockroachdb
 import (
 	"reflect"
 	"regexp"
+	"strings"
 
 	"github.com/kunitsucom/util.go/exp/diff/simplediff"
 
@@ -242,6 +243,10 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 			continue
 		}
 
+		if isSerialColumn(beforeColumn, afterColumn) {
+			continue
+		}
+
 		if beforeColumn.DataType.StringForDiff() != afterColumn.DataType.StringForDiff() {
 			// ALTER TABLE table_name ALTER COLUMN column_name SET DATA TYPE data_type;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
@@ -344,6 +349,19 @@ func hasTypeAnnotation(def *Default) bool {
 	return false
 }
 
+// isSerialColumn reports whether before is what the database makes of after, a column declared as SERIAL.
+func isSerialColumn(before, after *Column) bool {
+	if !before.NotNull || after.Default != nil || (!strings.HasPrefix(before.Default.StringForDiff(), "DEFAULT nextval (") && !strings.HasPrefix(before.Default.StringForDiff(), "DEFAULT unique_rowid (")) {
+		return false
+	}
+	switch after.DataType.Type { //nolint:exhaustive
+	case TOKEN_SMALLSERIAL, TOKEN_SERIAL, TOKEN_BIGSERIAL:
+		return before.DataType.Type == TOKEN_INT2 || before.DataType.Type == TOKEN_INT4 || before.DataType.Type == TOKEN_INT8
+	default:
+		return false
+	}
+}
+
 func onlyLeftColumn(left, right []*Column) []*Column {
 	onlyLeftColumns := make([]*Column, 0)
 	for _, leftColumn := range left {
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index f926a76..4db7bc3 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -193,6 +193,10 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 			continue
 		}
 
+		if isSerialColumn(beforeColumn, afterColumn) {
+			continue
+		}
+
 		if beforeColumn.DataType.StringForDiff() != afterColumn.DataType.StringForDiff() {
 			// ALTER TABLE table_name ALTER COLUMN column_name SET DATA TYPE data_type;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
@@ -280,6 +284,23 @@ func equalDefault(before, after *Column) bool {
 	return negativeNumber.ReplaceAllString(beforeDefault, "DEFAULT - $1") == afterDefault
 }
 
+// isSerialColumn reports whether before is what the database makes of after, a column declared as SERIAL.
+func isSerialColumn(before, after *Column) bool {
+	if !before.NotNull || after.Default != nil || !strings.HasPrefix(before.Default.StringForDiff(), "DEFAULT nextval (") {
+		return false
+	}
+	switch after.DataType.Type { //nolint:exhaustive
+	case TOKEN_SMALLSERIAL:
+		return before.DataType.Type == TOKEN_SMALLINT
+	case TOKEN_SERIAL:
+		return before.DataType.Type == TOKEN_INTEGER
+	case TOKEN_BIGSERIAL:
+		return before.DataType.Type == TOKEN_BIGINT
+	default:
+		return false
+	}
+}
+
 func onlyLeftColumn(left, right []*Column) []*Column {
 	onlyLeftColumns := make([]*Column, 0)
 	for _, leftColumn := range left {
-- 
2.43.0


From f832b1626518bb03bbc11d2ae439bec14e7ee5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:18 +0000
Subject: [PATCH 43/69] fix: a MySQL CHECK constraint was planned to be dropped
 and added at every run because MySQL shows it in additional parentheses

---
 pkg/ddl/mysql/ddl_table.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 128f3f8..3afa833 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -209,7 +209,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		str += "CONSTRAINT " + c.Name.StringForDiff() + " "
 	}
 	str += "CHECK "
-	for i, v := range c.Expr.Idents {
+	for i, v := range trimRedundantParens(c.Expr.Idents) {
 		if i != 0 {
 			str += " "
 		}
@@ -218,6 +218,29 @@ func (c *CheckConstraint) StringForDiff() string {
 	return str
 }
 
+// trimRedundantParens returns ( expr ) for (( expr )), as the database shows the expression of a CHECK constraint.
+func trimRedundantParens(idents []*Ident) []*Ident {
+	for len(idents) > 2 && idents[0].Name == "(" && idents[1].Name == "(" {
+		depth := 0
+		for i, ident := range idents[1:] {
+			switch ident.Name {
+			case "(":
+				depth++
+			case ")":
+				depth--
+			}
+			if depth == 0 {
+				if i != len(idents)-3 { //nolint:mnd // the second parenthesis is closed before the last but one
+					return idents
+				}
+				break
+			}
+		}
+		idents = idents[1 : len(idents)-1]
+	}
+	return idents
+}
+
 func NewObjectName(name string) *ObjectName {
 	objName := &ObjectName{}
 
-- 
2.43.0


From 4ead2ddfdf1e1a02084e0952a3bfbf3266c405f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:14 +0000
Subject: [PATCH 44/69] fix: PostgreSQL show left out what foreign keys refer
 to, CHECK constraints and the precision of NUMERIC

---
 pkg/ddl/postgres/ddl_table.go               | 35 ++++++++++++++++++---
 pkg/ddl/postgres/diff_create_table.go       |  8 ++++-
 pkg/ddl/postgres/parser.go                  | 16 ++++++++++
 pkg/show/postgres/show_create_all_tables.go | 34 +++++++-------------
 4 files changed, 65 insertions(+), 28 deletions(-)

diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index 5f514ca..565d6b8 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -110,7 +110,7 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 		str += v.StringForDiff()
 	}
 	str += ")"
-	str += " REFERENCES " + c.Ref.Name
+	str += " REFERENCES " + NewObjectName(c.Ref.Raw).nameForDiff()
 	str += " ("
 	for i, v := range c.RefColumns {
 		if i != 0 {
@@ -119,8 +119,12 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 		str += v.StringForDiff()
 	}
 	str += ")"
-	if c.OnAction != "" {
-		str += " " + c.OnAction
+	for _, event := range []string{" ON DELETE ", " ON UPDATE "} { // MEMO: the order of the actions does not matter.
+		for _, action := range []string{"CASCADE", "NO ACTION"} {
+			if strings.Contains(" "+strings.ToUpper(c.OnAction), event+action) {
+				str += event + action
+			}
+		}
 	}
 	return str
 }
@@ -190,7 +194,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		str += "CONSTRAINT " + c.Name.StringForDiff() + " "
 	}
 	str += "CHECK "
-	for i, v := range c.Expr.Idents {
+	for i, v := range trimRedundantParens(c.Expr.Idents) {
 		if i != 0 {
 			str += " "
 		}
@@ -199,6 +203,29 @@ func (c *CheckConstraint) StringForDiff() string {
 	return str
 }
 
+// trimRedundantParens returns ( expr ) for (( expr )), as the database shows the expression of a CHECK constraint.
+func trimRedundantParens(idents []*Ident) []*Ident {
+	for len(idents) > 2 && idents[0].Name == "(" && idents[1].Name == "(" {
+		depth := 0
+		for i, ident := range idents[1:] {
+			switch ident.Name {
+			case "(":
+				depth++
+			case ")":
+				depth--
+			}
+			if depth == 0 {
+				if i != len(idents)-3 { //nolint:mnd // the second parenthesis is closed before the last but one
+					return idents
+				}
+				break
+			}
+		}
+		idents = idents[1 : len(idents)-1]
+	}
+	return idents
+}
+
 func NewObjectName(name string) *ObjectName {
 	objName := &ObjectName{}
 
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index 4db7bc3..25dd321 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -105,7 +105,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	for _, beforeConstraint := range before.Constraints {
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
 		if afterConstraint != nil {
-			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
+			if !equalConstraint(beforeConstraint, afterConstraint) {
 				// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
 				// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
 				if !isPrimaryKeyChanged(beforeConstraint, afterConstraint) {
@@ -149,6 +149,12 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	return result, nil
 }
 
+// equalConstraint reports whether the constraints are the same. NO ACTION is the default of a foreign key, which the database does not show.
+func equalConstraint(before, after Constraint) bool {
+	noAction := strings.NewReplacer(" ON DELETE NO ACTION", "", " ON UPDATE NO ACTION", "")
+	return noAction.Replace(before.StringForDiff()) == noAction.Replace(after.StringForDiff())
+}
+
 // isPrimaryKeyChanged returns true if the constraint is a primary key of which the definition is changed.
 func isPrimaryKeyChanged(before, after Constraint) bool {
 	if before == nil || after == nil {
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 7ec08e3..020fb85 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -633,6 +633,22 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		c.Name = constraintName
 		c.Columns = idents
 		return c, nil
+	case TOKEN_CHECK:
+		constraint := &CheckConstraint{}
+		if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
+			return nil, apperr.Errorf("checkPeekToken: %w", err)
+		}
+		p.nextToken() // current = (
+		idents, err := p.parseExpr()
+		if err != nil {
+			return nil, apperr.Errorf("parseExpr: %w", err)
+		}
+		if constraintName == nil {
+			constraintName = NewRawIdent(tableName.StringForDiff() + "_check")
+		}
+		constraint.Name = constraintName
+		constraint.Expr = constraint.Expr.Append(idents...)
+		return constraint, nil
 	default:
 		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 	}
diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index ce1e84c..46be5f1 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -29,6 +29,7 @@ FROM
             string_agg(
                 quote_ident(c.column_name) || ' ' || c.data_type ||
                 (CASE WHEN c.character_maximum_length IS NOT NULL THEN '(' || c.character_maximum_length || ')' ELSE '' END) ||
+                (CASE WHEN c.data_type = 'numeric' AND c.numeric_precision IS NOT NULL THEN '(' || c.numeric_precision || ',' || c.numeric_scale || ')' ELSE '' END) ||
                 (CASE WHEN c.is_nullable = 'NO' THEN ' NOT NULL' ELSE '' END) ||
                 (CASE WHEN c.column_default IS NOT NULL THEN ' DEFAULT ' || c.column_default ELSE '' END),
                 ',' || E'\n' || '  ' ORDER BY c.ordinal_position
@@ -44,35 +45,22 @@ LEFT JOIN
     (
         -- CONSTRAINT DEFINITIONS
         SELECT
-            tc.table_schema,
-            tc.table_name,
+            nsp.nspname AS table_schema,
+            rel.relname AS table_name,
             string_agg(
-                'CONSTRAINT ' || quote_ident(tc.constraint_name) || ' ' || tc.constraint_type || ' (' || kcu.column_names || ')' ||
-                (CASE WHEN rc.update_rule IS NOT NULL THEN ' ON UPDATE ' || rc.update_rule ELSE '' END) ||
-                (CASE WHEN rc.delete_rule IS NOT NULL THEN ' ON DELETE ' || rc.delete_rule ELSE '' END),
-                ',' || E'\n' || '  ' ORDER BY tc.constraint_name
+                'CONSTRAINT ' || quote_ident(con.conname) || ' ' || pg_get_constraintdef(con.oid),
+                ',' || E'\n' || '  ' ORDER BY con.conname
             ) AS constraint_defs
         FROM
-            information_schema.table_constraints tc
+            pg_catalog.pg_constraint con
         JOIN
-            (
-                -- CONSTRAINT COLUMN NAMES
-                SELECT
-                    kcu.table_schema,
-                    kcu.table_name,
-                    kcu.constraint_name,
-                    string_agg(quote_ident(kcu.column_name), ', ' ORDER BY kcu.ordinal_position) AS column_names
-                FROM
-                    information_schema.key_column_usage kcu
-                GROUP BY
-                    kcu.table_schema, kcu.table_name, kcu.constraint_name
-            ) kcu ON tc.table_schema = kcu.table_schema AND tc.table_name = kcu.table_name AND tc.constraint_name = kcu.constraint_name
-        LEFT JOIN
-            information_schema.referential_constraints rc ON tc.constraint_name = rc.constraint_name
+            pg_catalog.pg_class rel ON con.conrelid = rel.oid
+        JOIN
+            pg_catalog.pg_namespace nsp ON rel.relnamespace = nsp.oid
         WHERE
-            tc.constraint_type IN ('PRIMARY KEY', 'FOREIGN KEY', 'UNIQUE')
+            con.contype IN ('p', 'u', 'f', 'c')
         GROUP BY
-            tc.table_schema, tc.table_name
+            nsp.nspname, rel.relname
     ) cnst ON clmn.table_schema = cnst.table_schema AND clmn.table_name = cnst.table_name
 ORDER BY
     clmn.table_schema, clmn.table_name
-- 
2.43.0


From 3ca902778f429386f005a105be23a5b1dc905b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:14 +0000
Subject: [PATCH 45/69] fix: CockroachDB foreign keys and CHECK constraints, as
 SHOW CREATE ALL TABLES shows them, did not parse or were planned as changed

---
 pkg/ddl/cockroachdb/ddl_table.go         | 35 +++++++++++--
 pkg/ddl/cockroachdb/diff_create_table.go | 44 +++++++++++------
 pkg/ddl/cockroachdb/parser.go            | 62 ++++++++++++++++++++++++
 3 files changed, 123 insertions(+), 18 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index b898238..0903711 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -122,7 +122,7 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 		str += v.StringForDiff()
 	}
 	str += ")"
-	str += " REFERENCES " + c.Ref.Name
+	str += " REFERENCES " + NewObjectName(c.Ref.Raw).nameForDiff()
 	str += " ("
 	for i, v := range c.RefColumns {
 		if i != 0 {
@@ -131,8 +131,12 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 		str += v.StringForDiff()
 	}
 	str += ")"
-	if c.OnAction != "" {
-		str += " " + c.OnAction
+	for _, event := range []string{" ON DELETE ", " ON UPDATE "} { // MEMO: the order of the actions does not matter.
+		for _, action := range []string{"CASCADE", "NO ACTION"} {
+			if strings.Contains(" "+strings.ToUpper(c.OnAction), event+action) {
+				str += event + action
+			}
+		}
 	}
 	return str
 }
@@ -221,7 +225,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		str += "CONSTRAINT " + c.Name.StringForDiff() + " "
 	}
 	str += "CHECK "
-	for i, v := range c.Expr.Idents {
+	for i, v := range trimRedundantParens(c.Expr.Idents) {
 		if i != 0 {
 			str += " "
 		}
@@ -230,6 +234,29 @@ func (c *CheckConstraint) StringForDiff() string {
 	return str
 }
 
+// trimRedundantParens returns ( expr ) for (( expr )), as the database shows the expression of a CHECK constraint.
+func trimRedundantParens(idents []*Ident) []*Ident {
+	for len(idents) > 2 && idents[0].Name == "(" && idents[1].Name == "(" {
+		depth := 0
+		for i, ident := range idents[1:] {
+			switch ident.Name {
+			case "(":
+				depth++
+			case ")":
+				depth--
+			}
+			if depth == 0 {
+				if i != len(idents)-3 { //nolint:mnd // the second parenthesis is closed before the last but one
+					return idents
+				}
+				break
+			}
+		}
+		idents = idents[1 : len(idents)-1]
+	}
+	return idents
+}
+
 func NewObjectName(name string) *ObjectName {
 	objName := &ObjectName{}
 
diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index 6e32494..202fc62 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -115,7 +115,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	for _, beforeConstraint := range before.Constraints {
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
 		if afterConstraint != nil {
-			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
+			if !equalConstraint(beforeConstraint, afterConstraint) {
 				switch ac := afterConstraint.(type) { //diff:ignore-line-postgres-cockroach
 				case *IndexConstraint: //diff:ignore-line-postgres-cockroach
 					// DROP INDEX index_name;                               //diff:ignore-line-postgres-cockroach
@@ -194,6 +194,18 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	return result, nil
 }
 
+// equalConstraint reports whether the constraints are the same. NO ACTION is the default of a foreign key, which the database does not show.
+// CockroachDB shows the literals of a CHECK constraint with type annotations.
+func equalConstraint(before, after Constraint) bool {
+	if b, ok := before.(*CheckConstraint); ok {
+		if a, ok := after.(*CheckConstraint); ok && !hasTypeAnnotation(a.Expr) {
+			before = &CheckConstraint{Name: b.Name, Expr: withoutTypeAnnotation(b.Expr)}
+		}
+	}
+	noAction := strings.NewReplacer(" ON DELETE NO ACTION", "", " ON UPDATE NO ACTION", "")
+	return noAction.Replace(before.StringForDiff()) == noAction.Replace(after.StringForDiff())
+}
+
 // isPrimaryKeyChanged returns true if the constraint is a primary key of which the definition is changed.
 func isPrimaryKeyChanged(before, after Constraint) bool {
 	if before == nil || after == nil {
@@ -325,30 +337,34 @@ func equalDefault(before, after *Default) bool {
 	if beforeDefault == afterDefault {
 		return true
 	}
-	if before == nil || after == nil || hasTypeAnnotation(after) || !hasTypeAnnotation(before) {
+	if before == nil || after == nil || hasTypeAnnotation(after.Value) {
 		return false
 	}
-	idents := make([]*Ident, 0, len(before.Value.Idents))
-	for i := 0; i < len(before.Value.Idents); i++ {
-		if before.Value.Idents[i].StringForDiff() == ":::" {
-			i++ // skip the type
-			continue
-		}
-		idents = append(idents, before.Value.Idents[i])
-	}
-	beforeDefault = (&Default{Value: &Expr{Idents: idents}}).StringForDiff()
+	beforeDefault = (&Default{Value: withoutTypeAnnotation(before.Value)}).StringForDiff()
 	return beforeDefault == afterDefault || negativeNumber.ReplaceAllString(beforeDefault, "DEFAULT - $1") == afterDefault
 }
 
-func hasTypeAnnotation(def *Default) bool {
-	for _, ident := range def.Value.Idents {
-		if ident.StringForDiff() == ":::" {
+func hasTypeAnnotation(expr *Expr) bool {
+	for _, ident := range expr.Idents {
+		if ident.Name == ":::" {
 			return true
 		}
 	}
 	return false
 }
 
+func withoutTypeAnnotation(expr *Expr) *Expr {
+	idents := make([]*Ident, 0, len(expr.Idents))
+	for i := 0; i < len(expr.Idents); i++ {
+		if expr.Idents[i].Name == ":::" {
+			i++ // skip the type
+			continue
+		}
+		idents = append(idents, expr.Idents[i])
+	}
+	return &Expr{Idents: idents}
+}
+
 // isSerialColumn reports whether before is what the database makes of after, a column declared as SERIAL.
 func isSerialColumn(before, after *Column) bool {
 	if !before.NotNull || after.Default != nil || (!strings.HasPrefix(before.Default.StringForDiff(), "DEFAULT nextval (") && !strings.HasPrefix(before.Default.StringForDiff(), "DEFAULT unique_rowid (")) {
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 4126360..381af8f 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -87,6 +87,11 @@ LabelDDL:
 				return nil, apperr.Errorf("parseCreateStatement: %w", err)
 			}
 			d.Stmts = append(d.Stmts, stmt)
+		case TOKEN_ALTER: //diff:ignore-line-postgres-cockroach
+			if err := p.parseAlterTableStatement(d); err != nil { //diff:ignore-line-postgres-cockroach
+				return nil, apperr.Errorf("parseAlterTableStatement: %w", err) //diff:ignore-line-postgres-cockroach
+			} //diff:ignore-line-postgres-cockroach
+			continue //diff:ignore-line-postgres-cockroach
 		case TOKEN_CLOSE_PAREN:
 			// do nothing
 		case TOKEN_SEMICOLON:
@@ -102,6 +107,47 @@ LabelDDL:
 	return d, nil
 }
 
+// parseAlterTableStatement parses the statements by which SHOW CREATE ALL TABLES shows foreign keys:
+// ALTER TABLE table_name ADD CONSTRAINT ...; and ALTER TABLE table_name VALIDATE CONSTRAINT constraint_name;
+func (p *Parser) parseAlterTableStatement(d *DDL) error {
+	if err := p.checkPeekToken(TOKEN_TABLE); err != nil {
+		return apperr.Errorf("checkPeekToken: %w", err)
+	}
+	p.nextToken() // current = TABLE
+	if err := p.checkPeekToken(TOKEN_IDENT); err != nil {
+		return apperr.Errorf("checkPeekToken: %w", err)
+	}
+	p.nextToken() // current = table_name
+	createTableStmt := findCreateTableStmtByTableName(NewObjectName(p.currentToken.Literal.Str), d.Stmts)
+	if createTableStmt == nil {
+		return apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
+	p.nextToken() // current = ADD or VALIDATE
+	action := strings.ToUpper(p.currentToken.Literal.Str)
+	if err := p.checkPeekToken(TOKEN_CONSTRAINT); err != nil {
+		return apperr.Errorf("checkPeekToken: %w", err)
+	}
+	p.nextToken() // current = CONSTRAINT
+	switch action {
+	case "ADD":
+		constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
+		if err != nil {
+			return apperr.Errorf("parseTableConstraint: %w", err)
+		}
+		createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+	case "VALIDATE":
+		p.nextToken() // current = constraint_name
+		p.nextToken() // current = ;
+	default:
+		return apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return apperr.Errorf("checkCurrentToken: %w", err)
+	}
+	return nil
+}
+
 func (p *Parser) parseCreateStatement() (Stmt, error) { //nolint:ireturn
 	p.nextToken() // current = TABLE or INDEX or ...
 
@@ -754,6 +800,22 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			p.nextToken() // current = (
 		}
 		return c, nil
+	case TOKEN_CHECK:
+		constraint := &CheckConstraint{}
+		if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
+			return nil, apperr.Errorf("checkPeekToken: %w", err)
+		}
+		p.nextToken() // current = (
+		idents, err := p.parseExpr()
+		if err != nil {
+			return nil, apperr.Errorf("parseExpr: %w", err)
+		}
+		if constraintName == nil {
+			constraintName = NewRawIdent(tableName.StringForDiff() + "_check")
+		}
+		constraint.Name = constraintName
+		constraint.Expr = constraint.Expr.Append(idents...)
+		return constraint, nil
 	default:
 		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 	}
-- 
2.43.0


From 252d05e33c5222d466280ca000226aadd59cb445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:24 +0000
Subject: [PATCH 46/69] fix: Spanner show left out foreign keys and CHECK
 constraints, and listed the indexes that Spanner manages itself

---
 pkg/ddl/spanner/ddl_table.go               |   7 ++
 pkg/ddl/spanner/parser.go                  |  35 ++++++
 pkg/show/spanner/show_create_all_tables.go | 127 ++++++++++++++++++++-
 3 files changed, 164 insertions(+), 5 deletions(-)

diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index ed7d956..bfec596 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -37,6 +37,7 @@ type ForeignKeyConstraint struct {
 	Columns    []*ColumnIdent
 	Ref        *Ident
 	RefColumns []*ColumnIdent
+	OnAction   string
 }
 
 var _ Constraint = (*ForeignKeyConstraint)(nil)
@@ -53,6 +54,9 @@ func (c *ForeignKeyConstraint) String() string {
 	str += " (" + stringz.JoinStringers(", ", c.Columns...) + ")"
 	str += " REFERENCES " + c.Ref.String()
 	str += " (" + stringz.JoinStringers(", ", c.RefColumns...) + ")"
+	if c.OnAction != "" {
+		str += " " + c.OnAction
+	}
 	return str
 }
 
@@ -79,6 +83,9 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 		str += v.StringForDiff()
 	}
 	str += ")"
+	if c.OnAction != "" && c.OnAction != "ON DELETE NO ACTION" { // MEMO: NO ACTION is the default.
+		str += " " + c.OnAction
+	}
 	return str
 }
 
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 1846e0a..bb70839 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -596,6 +596,11 @@ LabelConstraints:
 				return nil, apperr.Errorf("parseColumnIdents: %w", err)
 			}
 			constraint.RefColumns = idents
+			onAction, err := p.parseForeignKeyOnAction()
+			if err != nil {
+				return nil, apperr.Errorf("parseForeignKeyOnAction: %w", err)
+			}
+			constraint.OnAction = onAction
 			constraints = constraints.Append(constraint)
 			continue // NOTE: the current token is already the one after the constraint
 		case TOKEN_CHECK:
@@ -673,11 +678,16 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			name += "_fkey"
 			constraintName = NewRawIdent(name)
 		}
+		onAction, err := p.parseForeignKeyOnAction()
+		if err != nil {
+			return nil, apperr.Errorf("parseForeignKeyOnAction: %w", err)
+		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
 			Columns:    idents,
 			Ref:        refName,
 			RefColumns: identsRef,
+			OnAction:   onAction,
 		}, nil
 	case TOKEN_CHECK:
 		constraint := &CheckConstraint{
@@ -699,6 +709,31 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 	}
 }
 
+// parseForeignKeyOnAction parses ON DELETE CASCADE or ON DELETE NO ACTION, if there is one.
+func (p *Parser) parseForeignKeyOnAction() (string, error) {
+	if !p.isCurrentToken(TOKEN_ON) {
+		return "", nil
+	}
+	p.nextToken() // current = DELETE
+	if err := p.checkCurrentToken(TOKEN_DELETE); err != nil {
+		return "", apperr.Errorf("checkCurrentToken: %w", err)
+	}
+	p.nextToken() // current = CASCADE or NO
+	if p.isCurrentToken(TOKEN_CASCADE) {
+		p.nextToken()
+		return "ON DELETE CASCADE", nil
+	}
+	if err := p.checkCurrentToken(TOKEN_NO); err != nil {
+		return "", apperr.Errorf("checkCurrentToken: %w", err)
+	}
+	p.nextToken() // current = ACTION
+	if err := p.checkCurrentToken(TOKEN_ACTION); err != nil {
+		return "", apperr.Errorf("checkCurrentToken: %w", err)
+	}
+	p.nextToken()
+	return "ON DELETE NO ACTION", nil
+}
+
 //nolint:cyclop,funlen
 func (p *Parser) parseDataType() (*DataType, error) {
 	dataType := &DataType{
diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index 9582c83..86c0d11 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -28,8 +28,8 @@ type informationSchemaTable struct {
 	OnDeleteAction  *string `db:"ON_DELETE_ACTION"`
 }
 
-// sortParentsFirst sorts tables so that an interleaved table comes after its parent, otherwise keeping the order.
-func sortParentsFirst(tables []*informationSchemaTable) []*informationSchemaTable {
+// sortParentsFirst sorts tables so that a table comes after its parent and the tables its foreign keys refer to, otherwise keeping the order.
+func sortParentsFirst(tables []*informationSchemaTable, foreignKeys []*informationSchemaForeignKey) []*informationSchemaTable {
 	byName := make(map[string]*informationSchemaTable, len(tables))
 	for _, tbl := range tables {
 		byName[tbl.TableName] = tbl
@@ -46,6 +46,11 @@ func sortParentsFirst(tables []*informationSchemaTable) []*informationSchemaTabl
 		if tbl.ParentTableName != nil && byName[*tbl.ParentTableName] != nil {
 			add(byName[*tbl.ParentTableName])
 		}
+		for _, fk := range foreignKeys {
+			if fk.TableName == tbl.TableName && byName[fk.RefTableName] != nil {
+				add(byName[fk.RefTableName])
+			}
+		}
 		sorted = append(sorted, tbl)
 	}
 	for _, tbl := range tables {
@@ -173,7 +178,101 @@ type informationSchemaPrimaryKey struct {
 }
 
 const (
-	querySelectIndexes = `SELECT DISTINCT INDEX_NAME, IS_UNIQUE FROM INFORMATION_SCHEMA.INDEXES WHERE TABLE_NAME = ? AND INDEX_TYPE != "PRIMARY_KEY" ORDER BY INDEX_NAME;`
+	queryShowForeignKeys = `-- SHOW FOREIGN KEYS
+SELECT
+    k.TABLE_NAME,
+    k.CONSTRAINT_NAME,
+    k.COLUMN_NAME,
+    r.TABLE_NAME AS REF_TABLE_NAME,
+    r.COLUMN_NAME AS REF_COLUMN_NAME,
+    rc.DELETE_RULE
+FROM
+    INFORMATION_SCHEMA.REFERENTIAL_CONSTRAINTS AS rc
+INNER JOIN
+    INFORMATION_SCHEMA.KEY_COLUMN_USAGE AS k
+ON
+    k.CONSTRAINT_SCHEMA = rc.CONSTRAINT_SCHEMA
+    AND k.CONSTRAINT_NAME = rc.CONSTRAINT_NAME
+INNER JOIN
+    INFORMATION_SCHEMA.KEY_COLUMN_USAGE AS r
+ON
+    r.CONSTRAINT_SCHEMA = rc.UNIQUE_CONSTRAINT_SCHEMA
+    AND r.CONSTRAINT_NAME = rc.UNIQUE_CONSTRAINT_NAME
+    AND r.ORDINAL_POSITION = k.POSITION_IN_UNIQUE_CONSTRAINT
+WHERE
+    k.TABLE_SCHEMA = ''
+ORDER BY
+    k.TABLE_NAME, k.CONSTRAINT_NAME, k.ORDINAL_POSITION
+;
+`
+)
+
+type informationSchemaForeignKey struct {
+	// REFERENTIAL_CONSTRAINTS https://cloud.google.com/spanner/docs/information-schema?hl=ja#referential_constraints
+	// KEY_COLUMN_USAGE https://cloud.google.com/spanner/docs/information-schema?hl=ja#key_column_usage
+	TableName      string `db:"TABLE_NAME"`
+	ConstraintName string `db:"CONSTRAINT_NAME"`
+	ColumnName     string `db:"COLUMN_NAME"`
+	RefTableName   string `db:"REF_TABLE_NAME"`
+	RefColumnName  string `db:"REF_COLUMN_NAME"`
+	DeleteRule     string `db:"DELETE_RULE"`
+}
+
+// showForeignKeys returns the foreign keys of the table as elements of CREATE TABLE.
+func showForeignKeys(tableName string, foreignKeys []*informationSchemaForeignKey) []string {
+	defs := make([]string, 0)
+	for i := 0; i < len(foreignKeys); {
+		fk := foreignKeys[i]
+		columns, refColumns := make([]string, 0), make([]string, 0)
+		for ; i < len(foreignKeys) && foreignKeys[i].TableName == fk.TableName && foreignKeys[i].ConstraintName == fk.ConstraintName; i++ {
+			columns = append(columns, quoteIdent(foreignKeys[i].ColumnName))
+			refColumns = append(refColumns, quoteIdent(foreignKeys[i].RefColumnName))
+		}
+		if fk.TableName != tableName {
+			continue
+		}
+		d := fmt.Sprintf("CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s (%s)", quoteIdent(fk.ConstraintName), strings.Join(columns, ", "), quoteIdent(fk.RefTableName), strings.Join(refColumns, ", "))
+		if fk.DeleteRule != "" && fk.DeleteRule != "NO ACTION" {
+			d += " ON DELETE " + fk.DeleteRule
+		}
+		defs = append(defs, d)
+	}
+
+	return defs
+}
+
+const (
+	// NOTE: Spanner lists NOT NULL as CHECK constraints, too.
+	queryShowCheckConstraints = `-- SHOW CHECK CONSTRAINTS
+SELECT
+    tc.CONSTRAINT_NAME,
+    cc.CHECK_CLAUSE
+FROM
+    INFORMATION_SCHEMA.TABLE_CONSTRAINTS AS tc
+INNER JOIN
+    INFORMATION_SCHEMA.CHECK_CONSTRAINTS AS cc
+ON
+    cc.CONSTRAINT_SCHEMA = tc.CONSTRAINT_SCHEMA
+    AND cc.CONSTRAINT_NAME = tc.CONSTRAINT_NAME
+WHERE
+    tc.TABLE_SCHEMA = ''
+    AND tc.TABLE_NAME = ?
+    AND tc.CONSTRAINT_TYPE = "CHECK"
+    AND tc.CONSTRAINT_NAME NOT LIKE "CK_IS_NOT_NULL_%"
+ORDER BY
+    tc.CONSTRAINT_NAME
+;
+`
+)
+
+type informationSchemaCheckConstraint struct {
+	// CHECK_CONSTRAINTS https://cloud.google.com/spanner/docs/information-schema?hl=ja#check_constraints
+	ConstraintName string `db:"CONSTRAINT_NAME"`
+	CheckClause    string `db:"CHECK_CLAUSE"`
+}
+
+const (
+	querySelectIndexes = `SELECT DISTINCT INDEX_NAME, IS_UNIQUE FROM INFORMATION_SCHEMA.INDEXES WHERE TABLE_NAME = ? AND INDEX_TYPE != "PRIMARY_KEY" AND SPANNER_IS_MANAGED = FALSE ORDER BY INDEX_NAME;`
 )
 
 type informationSchemaIndexName struct {
@@ -250,7 +349,12 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 		return "", apperr.Errorf("dbz.QueryContext: %w", err)
 	}
 
-	tables = sortParentsFirst(tables)
+	foreignKeys := make([]*informationSchemaForeignKey, 0)
+	if err := dbz.QueryContext(ctx, &foreignKeys, queryShowForeignKeys); err != nil {
+		return "", apperr.Errorf("dbz.QueryContext: %w", err)
+	}
+
+	tables = sortParentsFirst(tables, foreignKeys)
 
 	tablesLastIndex := len(tables) - 1
 	for tblIdx, tbl := range tables {
@@ -267,6 +371,16 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			return "", apperr.Errorf("dbz.QueryContext: %w", err)
 		}
 
+		constraints := showForeignKeys(tbl.TableName, foreignKeys)
+
+		checkConstraints := make([]*informationSchemaCheckConstraint, 0)
+		if err := dbz.QueryContext(ctx, &checkConstraints, queryShowCheckConstraints, tbl.TableName); err != nil {
+			return "", apperr.Errorf("dbz.QueryContext: %w", err)
+		}
+		for _, check := range checkConstraints {
+			constraints = append(constraints, fmt.Sprintf("CONSTRAINT %s CHECK (%s)", quoteIdent(check.ConstraintName), check.CheckClause))
+		}
+
 		columnsLastIndex := len(columns) - 1
 		for colIdx, col := range columns {
 			d += fmt.Sprintf("    %s", col)
@@ -288,13 +402,16 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 					d += ")"
 				}
 			}
-			if colIdx != columnsLastIndex {
+			if colIdx != columnsLastIndex || len(constraints) > 0 {
 				d += ","
 			}
 			d += "\n"
 
 			logs.Trace.Printf("table=%s: columns: %s", tbl.TableName, col)
 		}
+		if len(constraints) > 0 {
+			d += "    " + strings.Join(constraints, ",\n    ") + "\n"
+		}
 		d += ")"
 
 		primaryKeyColumns := make([]*informationSchemaPrimaryKey, 0)
-- 
2.43.0


From 3819fae72d6a3506dc4132993dc25416980282c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:52 +0000
Subject: [PATCH 47/69] fix: of several unnamed constraints of a table only the
 last was kept, and an unnamed Spanner CHECK crashed diff

---
 pkg/ddl/cockroachdb/ddl_table.go | 10 ++++++++++
 pkg/ddl/cockroachdb/parser.go    | 10 +++++-----
 pkg/ddl/mysql/ddl_table.go       | 10 ++++++++++
 pkg/ddl/mysql/parser.go          |  8 ++++----
 pkg/ddl/postgres/ddl_table.go    | 10 ++++++++++
 pkg/ddl/postgres/parser.go       | 10 +++++-----
 pkg/ddl/spanner/ddl_table.go     | 10 ++++++++++
 pkg/ddl/spanner/parser.go        |  9 ++++++---
 8 files changed, 60 insertions(+), 17 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index 0903711..a093c4b 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -2,6 +2,7 @@ package cockroachdb
 
 import (
 	"sort" //diff:ignore-line-postgres-cockroach
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -41,6 +42,15 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// unusedName returns the name for a constraint that is written without one, numbered if there is a constraint of that name already.
+func (constraints Constraints) unusedName(name string) *Ident {
+	unused := name
+	for i := 1; findConstraintByName(unused, constraints) != nil; i++ {
+		unused = name + strconv.Itoa(i)
+	}
+	return NewRawIdent(unused)
+}
+
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
 type PrimaryKeyConstraint struct {
 	Name    *Ident
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 381af8f..206bedf 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -131,7 +131,7 @@ func (p *Parser) parseAlterTableStatement(d *DDL) error {
 	p.nextToken() // current = CONSTRAINT
 	switch action {
 	case "ADD":
-		constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
+		constraint, err := p.parseTableConstraint(createTableStmt.Name.Name, createTableStmt.Constraints)
 		if err != nil {
 			return apperr.Errorf("parseTableConstraint: %w", err)
 		}
@@ -219,7 +219,7 @@ LabelColumns:
 				}
 			}
 		case isConstraint(p.currentToken.Type):
-			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
+			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name, createTableStmt.Constraints)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
@@ -669,7 +669,7 @@ LabelConstraints:
 }
 
 //nolint:funlen,cyclop,gocognit
-func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //nolint:ireturn
+func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints) (Constraint, error) { //nolint:ireturn
 	var constraintName *Ident
 	if p.isCurrentToken(TOKEN_CONSTRAINT) {
 		p.nextToken() // current = constraint_name
@@ -757,7 +757,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = constraints.unusedName(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -811,7 +811,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_check")
+			constraintName = constraints.unusedName(tableName.StringForDiff() + "_check")
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 3afa833..c81aa79 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -2,6 +2,7 @@ package mysql
 
 import (
 	"sort"
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -41,6 +42,15 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// unusedName returns the name for a constraint that is written without one, numbered if there is a constraint of that name already.
+func (constraints Constraints) unusedName(name string) *Ident {
+	unused := name
+	for i := 1; findConstraintByName(unused, constraints) != nil; i++ {
+		unused = name + strconv.Itoa(i)
+	}
+	return NewRawIdent(unused)
+}
+
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
 type PrimaryKeyConstraint struct {
 	Name    *Ident
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 5b6d6f1..6c895d1 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -172,7 +172,7 @@ LabelColumns:
 				}
 			}
 		case isConstraint(p.currentToken.Type):
-			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
+			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name, createTableStmt.Constraints)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
@@ -622,7 +622,7 @@ LabelConstraints:
 }
 
 //nolint:funlen,cyclop,gocognit
-func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //nolint:ireturn
+func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints) (Constraint, error) { //nolint:ireturn
 	var constraintName *Ident
 	if p.isCurrentToken(TOKEN_CONSTRAINT) {
 		p.nextToken() // current = constraint_name
@@ -702,7 +702,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = constraints.unusedName(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -749,7 +749,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		}
 		if constraintName == nil {
 			// TODO: handle CONSTRAINT name
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_chk")
+			constraintName = constraints.unusedName(tableName.StringForDiff() + "_chk")
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index 565d6b8..2b057b8 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -1,6 +1,7 @@
 package postgres
 
 import (
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -29,6 +30,15 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// unusedName returns the name for a constraint that is written without one, numbered if there is a constraint of that name already.
+func (constraints Constraints) unusedName(name string) *Ident {
+	unused := name
+	for i := 1; findConstraintByName(unused, constraints) != nil; i++ {
+		unused = name + strconv.Itoa(i)
+	}
+	return NewRawIdent(unused)
+}
+
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
 type PrimaryKeyConstraint struct {
 	Name    *Ident
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 020fb85..43e6e14 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -173,7 +173,7 @@ LabelColumns:
 				}
 			}
 		case isConstraint(p.currentToken.Type):
-			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
+			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name, createTableStmt.Constraints)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
@@ -515,7 +515,7 @@ LabelConstraints:
 }
 
 //nolint:funlen,cyclop,gocognit
-func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //nolint:ireturn
+func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints) (Constraint, error) { //nolint:ireturn
 	var constraintName *Ident
 	if p.isCurrentToken(TOKEN_CONSTRAINT) {
 		p.nextToken() // current = constraint_name
@@ -603,7 +603,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = constraints.unusedName(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -628,7 +628,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			for _, ident := range idents {                //diff:ignore-line-postgres-cockroach
 				name += "_" + ident.StringForDiff() //diff:ignore-line-postgres-cockroach
 			} //diff:ignore-line-postgres-cockroach
-			constraintName = NewRawIdent(name) //diff:ignore-line-postgres-cockroach
+			constraintName = constraints.unusedName(name) //diff:ignore-line-postgres-cockroach
 		} //diff:ignore-line-postgres-cockroach
 		c.Name = constraintName
 		c.Columns = idents
@@ -644,7 +644,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_check")
+			constraintName = constraints.unusedName(tableName.StringForDiff() + "_check")
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index bfec596..a94e8c5 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -2,6 +2,7 @@ package spanner
 
 import (
 	//diff:ignore-line-postgres-cockroach
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -31,6 +32,15 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// unusedName returns the name for a constraint that is written without one, numbered if there is a constraint of that name already.
+func (constraints Constraints) unusedName(name string) *Ident {
+	unused := name
+	for i := 1; findConstraintByName(unused, constraints) != nil; i++ {
+		unused = name + strconv.Itoa(i)
+	}
+	return NewRawIdent(unused)
+}
+
 // ForeignKeyConstraint represents a FOREIGN KEY constraint.
 type ForeignKeyConstraint struct {
 	Name       *Ident
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index bb70839..81e9c83 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -172,7 +172,7 @@ LabelColumns:
 				}
 			}
 		case isConstraint(p.currentToken.Type):
-			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
+			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name, createTableStmt.Constraints)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
@@ -631,7 +631,7 @@ LabelConstraints:
 }
 
 //nolint:funlen,cyclop,gocognit
-func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //nolint:ireturn
+func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints) (Constraint, error) { //nolint:ireturn
 	var constraintName *Ident
 	if p.isCurrentToken(TOKEN_CONSTRAINT) {
 		p.nextToken() // current = constraint_name
@@ -676,7 +676,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = constraints.unusedName(name)
 		}
 		onAction, err := p.parseForeignKeyOnAction()
 		if err != nil {
@@ -701,6 +701,9 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if err != nil {
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
+		if constraintName == nil {
+			constraintName = constraints.unusedName(tableName.StringForDiff() + "_check")
+		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
 		return constraint, nil
-- 
2.43.0


From bac0d7803cd458c2a0f37eb2c2673cf6606473d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:26 +0000
Subject: [PATCH 48/69] fix: the names made for unnamed constraints were not
 quoted where the table or column is quoted, so that they were dropped and
 added at every run

---
 pkg/ddl/cockroachdb/ddl_table.go | 21 +++++++++++++++++++--
 pkg/ddl/cockroachdb/parser.go    | 14 +++++++-------
 pkg/ddl/mysql/ddl_table.go       | 21 +++++++++++++++++++--
 pkg/ddl/mysql/parser.go          | 10 +++++-----
 pkg/ddl/postgres/ddl_table.go    | 21 +++++++++++++++++++--
 pkg/ddl/postgres/parser.go       | 16 ++++++++--------
 6 files changed, 77 insertions(+), 26 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index a093c4b..47f8410 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -43,12 +43,29 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 }
 
 // unusedName returns the name for a constraint that is written without one, numbered if there is a constraint of that name already.
-func (constraints Constraints) unusedName(name string) *Ident {
+func (constraints Constraints) unusedName(name string, tableName *Ident, columns ...*ColumnIdent) *Ident {
 	unused := name
 	for i := 1; findConstraintByName(unused, constraints) != nil; i++ {
 		unused = name + strconv.Itoa(i)
 	}
-	return NewRawIdent(unused)
+	return newConstraintName(unused, tableName, columns...)
+}
+
+// newConstraintName returns the name for a constraint of the table and columns, quoted if they are and it can be written only so.
+func newConstraintName(name string, tableName *Ident, columns ...*ColumnIdent) *Ident {
+	quotationMark := tableName.QuotationMark
+	for _, column := range columns {
+		if quotationMark == "" {
+			quotationMark = column.Ident.QuotationMark
+		}
+	}
+	isSpecial := func(r rune) bool {
+		return !('a' <= r && r <= 'z' || '0' <= r && r <= '9' || r == '_')
+	}
+	if !strings.ContainsFunc(name, isSpecial) {
+		quotationMark = ""
+	}
+	return NewRawIdent(quotationMark + name + quotationMark)
 }
 
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 206bedf..5848f88 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -587,7 +587,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = KEY
 			constraints = constraints.Append(&PrimaryKeyConstraint{
-				Name:    NewRawIdent(tableName.StringForDiff() + "_pkey"),
+				Name:    newConstraintName(tableName.StringForDiff()+"_pkey", tableName),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_REFERENCES:
@@ -596,7 +596,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newConstraintName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff()), tableName, &ColumnIdent{Ident: column.Name}),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -638,7 +638,7 @@ LabelConstraints:
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{ //diff:ignore-line-postgres-cockroach
 				Unique:  true, //diff:ignore-line-postgres-cockroach
-				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newConstraintName(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff()), tableName, &ColumnIdent{Ident: column.Name}),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_CHECK:
@@ -647,7 +647,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: newConstraintName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff()), tableName, &ColumnIdent{Ident: column.Name}),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -695,7 +695,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			return nil, apperr.Errorf("parseColumnIdents: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_pkey")
+			constraintName = newConstraintName(tableName.StringForDiff()+"_pkey", tableName)
 		}
 		return &PrimaryKeyConstraint{
 			Name:    constraintName,
@@ -757,7 +757,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 				name += "_" + ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = constraints.unusedName(name)
+			constraintName = constraints.unusedName(name, tableName, idents...)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -811,7 +811,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = constraints.unusedName(tableName.StringForDiff() + "_check")
+			constraintName = constraints.unusedName(tableName.StringForDiff()+"_check", tableName)
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index c81aa79..655549a 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -43,12 +43,29 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 }
 
 // unusedName returns the name for a constraint that is written without one, numbered if there is a constraint of that name already.
-func (constraints Constraints) unusedName(name string) *Ident {
+func (constraints Constraints) unusedName(name string, tableName *Ident, columns ...*ColumnIdent) *Ident {
 	unused := name
 	for i := 1; findConstraintByName(unused, constraints) != nil; i++ {
 		unused = name + strconv.Itoa(i)
 	}
-	return NewRawIdent(unused)
+	return newConstraintName(unused, tableName, columns...)
+}
+
+// newConstraintName returns the name for a constraint of the table and columns, quoted if they are and it can be written only so.
+func newConstraintName(name string, tableName *Ident, columns ...*ColumnIdent) *Ident {
+	quotationMark := tableName.QuotationMark
+	for _, column := range columns {
+		if quotationMark == "" {
+			quotationMark = column.Ident.QuotationMark
+		}
+	}
+	isSpecial := func(r rune) bool {
+		return !('a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' || '0' <= r && r <= '9' || r == '_' || r == '$')
+	}
+	if !strings.ContainsFunc(name, isSpecial) {
+		quotationMark = ""
+	}
+	return NewRawIdent(quotationMark + name + quotationMark)
 }
 
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 6c895d1..465d08b 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -560,7 +560,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newConstraintName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff()), tableName, &ColumnIdent{Ident: column.Name}),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -591,7 +591,7 @@ LabelConstraints:
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{
 				Unique:  true,
-				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newConstraintName(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff()), tableName, &ColumnIdent{Ident: column.Name}),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_CHECK:
@@ -600,7 +600,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: newConstraintName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff()), tableName, &ColumnIdent{Ident: column.Name}),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -702,7 +702,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 				name += "_" + ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = constraints.unusedName(name)
+			constraintName = constraints.unusedName(name, tableName, idents...)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -749,7 +749,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 		}
 		if constraintName == nil {
 			// TODO: handle CONSTRAINT name
-			constraintName = constraints.unusedName(tableName.StringForDiff() + "_chk")
+			constraintName = constraints.unusedName(tableName.StringForDiff()+"_chk", tableName)
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index 2b057b8..8159a95 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -31,12 +31,29 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 }
 
 // unusedName returns the name for a constraint that is written without one, numbered if there is a constraint of that name already.
-func (constraints Constraints) unusedName(name string) *Ident {
+func (constraints Constraints) unusedName(name string, tableName *Ident, columns ...*ColumnIdent) *Ident {
 	unused := name
 	for i := 1; findConstraintByName(unused, constraints) != nil; i++ {
 		unused = name + strconv.Itoa(i)
 	}
-	return NewRawIdent(unused)
+	return newConstraintName(unused, tableName, columns...)
+}
+
+// newConstraintName returns the name for a constraint of the table and columns, quoted if they are and it can be written only so.
+func newConstraintName(name string, tableName *Ident, columns ...*ColumnIdent) *Ident {
+	quotationMark := tableName.QuotationMark
+	for _, column := range columns {
+		if quotationMark == "" {
+			quotationMark = column.Ident.QuotationMark
+		}
+	}
+	isSpecial := func(r rune) bool {
+		return !('a' <= r && r <= 'z' || '0' <= r && r <= '9' || r == '_')
+	}
+	if !strings.ContainsFunc(name, isSpecial) {
+		quotationMark = ""
+	}
+	return NewRawIdent(quotationMark + name + quotationMark)
 }
 
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 43e6e14..95239ab 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -434,7 +434,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = KEY
 			constraints = constraints.Append(&PrimaryKeyConstraint{
-				Name:    NewRawIdent(tableName.StringForDiff() + "_pkey"),
+				Name:    newConstraintName(tableName.StringForDiff()+"_pkey", tableName),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_REFERENCES:
@@ -443,7 +443,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newConstraintName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff()), tableName, &ColumnIdent{Ident: column.Name}),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -484,7 +484,7 @@ LabelConstraints:
 			continue // NOTE: the current token is already the one after the constraint
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&UniqueConstraint{ //diff:ignore-line-postgres-cockroach
-				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newConstraintName(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff()), tableName, &ColumnIdent{Ident: column.Name}),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_CHECK:
@@ -493,7 +493,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: newConstraintName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff()), tableName, &ColumnIdent{Ident: column.Name}),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -541,7 +541,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			return nil, apperr.Errorf("parseColumnIdents: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_pkey")
+			constraintName = newConstraintName(tableName.StringForDiff()+"_pkey", tableName)
 		}
 		return &PrimaryKeyConstraint{
 			Name:    constraintName,
@@ -603,7 +603,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 				name += "_" + ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = constraints.unusedName(name)
+			constraintName = constraints.unusedName(name, tableName, idents...)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -628,7 +628,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			for _, ident := range idents {                //diff:ignore-line-postgres-cockroach
 				name += "_" + ident.StringForDiff() //diff:ignore-line-postgres-cockroach
 			} //diff:ignore-line-postgres-cockroach
-			constraintName = constraints.unusedName(name) //diff:ignore-line-postgres-cockroach
+			constraintName = constraints.unusedName(name, tableName, idents...) //diff:ignore-line-postgres-cockroach
 		} //diff:ignore-line-postgres-cockroach
 		c.Name = constraintName
 		c.Columns = idents
@@ -644,7 +644,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = constraints.unusedName(tableName.StringForDiff() + "_check")
+			constraintName = constraints.unusedName(tableName.StringForDiff()+"_check", tableName)
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
-- 
2.43.0


From 8696bc8a13c24b5e455c5e82848bb80f45fe722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:45 +0000
Subject: [PATCH 49/69] fix: PostgreSQL and CockroachDB names written in upper
 case without quotes were dropped and created again at every run

---
 pkg/ddl/cockroachdb/ddl_table.go | 18 +++++++++++-------
 pkg/ddl/cockroachdb/parser.go    | 23 ++++++++++++++++-------
 pkg/ddl/postgres/ddl_table.go    | 18 +++++++++++-------
 pkg/ddl/postgres/parser.go       | 21 +++++++++++++++------
 4 files changed, 53 insertions(+), 27 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index 47f8410..fd73e19 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -65,7 +65,7 @@ func newConstraintName(name string, tableName *Ident, columns ...*ColumnIdent) *
 	if !strings.ContainsFunc(name, isSpecial) {
 		quotationMark = ""
 	}
-	return NewRawIdent(quotationMark + name + quotationMark)
+	return NewRawName(quotationMark + name + quotationMark)
 }
 
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
@@ -289,19 +289,23 @@ func NewObjectName(name string) *ObjectName {
 
 	if i := indexOfQualifier(name); i >= 0 {
 		// CREATE TABLE "schema"."table"
-		objName.Schema = NewRawIdent(name[:i])
-		objName.Name = NewRawIdent(name[i+1:])
+		objName.Schema = NewRawName(name[:i])
+		objName.Name = NewRawName(name[i+1:])
 		objName.quotedApart = true
 		return objName
 	}
 
-	tableName := NewRawIdent(name)
+	tableName := NewRawName(name)
+	unquoted := tableName.Name
+	if tableName.QuotationMark == "" {
+		unquoted = tableName.Raw
+	}
 	const hasSchema = 2
-	switch name := strings.Split(tableName.Name, "."); len(name) { //nolint:exhaustive
+	switch name := strings.Split(unquoted, "."); len(name) { //nolint:exhaustive
 	case hasSchema:
 		// CREATE TABLE "schema.table"
-		objName.Schema = NewRawIdent(tableName.QuotationMark + name[0] + tableName.QuotationMark)
-		objName.Name = NewRawIdent(tableName.QuotationMark + name[1] + tableName.QuotationMark)
+		objName.Schema = NewRawName(tableName.QuotationMark + name[0] + tableName.QuotationMark)
+		objName.Name = NewRawName(tableName.QuotationMark + name[1] + tableName.QuotationMark)
 	default:
 		// CREATE TABLE "table"
 		objName.Name = tableName
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 5848f88..6cd84a7 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -38,6 +38,15 @@ func NewRawIdent(raw string) *Ident {
 	}
 }
 
+// NewRawName is NewRawIdent for the name of a table, column, index or constraint: without quotes, its case does not matter.
+func NewRawName(raw string) *Ident {
+	ident := NewRawIdent(raw)
+	if ident.QuotationMark == "" {
+		ident.Name = strings.ToLower(ident.Name)
+	}
+	return ident
+}
+
 func NewIdent(name, quotationMark, raw string) *Ident {
 	return &Ident{
 		Name:          name,
@@ -271,7 +280,7 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 		return nil, apperr.Errorf("checkCurrentToken: %w", err)
 	}
 
-	createIndexStmt.Name = NewRawIdent(p.currentToken.Literal.Str)
+	createIndexStmt.Name = NewRawName(p.currentToken.Literal.Str)
 	errFmtPrefix := fmt.Sprintf("index_name=%s: ", createIndexStmt.Name.StringForDiff())
 
 	p.nextToken() // current = ON
@@ -331,7 +340,7 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 		return nil, nil, apperr.Errorf("checkCurrentToken: %w", err)
 	}
 
-	column.Name = NewRawIdent(p.currentToken.Literal.Str)
+	column.Name = NewRawName(p.currentToken.Literal.Str)
 	errFmtPrefix := fmt.Sprintf("column_name=%s: ", column.Name.StringForDiff())
 
 	p.nextToken() // current = DATA_TYPE
@@ -597,7 +606,7 @@ LabelConstraints:
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
 				Name:    newConstraintName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff()), tableName, &ColumnIdent{Ident: column.Name}),
-				Ref:     NewRawIdent(p.currentToken.Literal.Str),
+				Ref:     NewRawName(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
 			p.nextToken() // current = (
@@ -676,7 +685,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 		if p.currentToken.Type != TOKEN_IDENT {
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		}
-		constraintName = NewRawIdent(p.currentToken.Literal.Str)
+		constraintName = NewRawName(p.currentToken.Literal.Str)
 		p.nextToken() // current = PRIMARY or CHECK //diff:ignore-line-postgres-cockroach
 	}
 
@@ -721,7 +730,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 		if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
 			return nil, apperr.Errorf("checkCurrentToken: %w", err)
 		}
-		refName := NewRawIdent(p.currentToken.Literal.Str)
+		refName := NewRawName(p.currentToken.Literal.Str)
 
 		p.nextToken() // current = (
 		identsRef, err := p.parseColumnIdents()
@@ -780,7 +789,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 		if err := p.checkCurrentToken(TOKEN_IDENT); err != nil { //diff:ignore-line-postgres-cockroach
 			return nil, apperr.Errorf("checkCurrentToken: %w", err) //diff:ignore-line-postgres-cockroach
 		} //diff:ignore-line-postgres-cockroach
-		constraintName := NewRawIdent(p.currentToken.Literal.Str) //diff:ignore-line-postgres-cockroach
+		constraintName := NewRawName(p.currentToken.Literal.Str) //diff:ignore-line-postgres-cockroach
 		if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
 			return nil, apperr.Errorf("checkPeekToken: %w", err)
 		}
@@ -887,7 +896,7 @@ LabelIdents:
 		case TOKEN_OPEN_PAREN:
 			// do nothing
 		case TOKEN_IDENT:
-			ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
+			ident := &ColumnIdent{Ident: NewRawName(p.currentToken.Literal.Str)}
 			switch p.peekToken.Type { //nolint:exhaustive //diff:ignore-line-postgres-cockroach
 			case TOKEN_ASC: //diff:ignore-line-postgres-cockroach
 				ident.Order = &Order{Desc: false} //diff:ignore-line-postgres-cockroach
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index 8159a95..85c75a8 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -53,7 +53,7 @@ func newConstraintName(name string, tableName *Ident, columns ...*ColumnIdent) *
 	if !strings.ContainsFunc(name, isSpecial) {
 		quotationMark = ""
 	}
-	return NewRawIdent(quotationMark + name + quotationMark)
+	return NewRawName(quotationMark + name + quotationMark)
 }
 
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
@@ -258,19 +258,23 @@ func NewObjectName(name string) *ObjectName {
 
 	if i := indexOfQualifier(name); i >= 0 {
 		// CREATE TABLE "schema"."table"
-		objName.Schema = NewRawIdent(name[:i])
-		objName.Name = NewRawIdent(name[i+1:])
+		objName.Schema = NewRawName(name[:i])
+		objName.Name = NewRawName(name[i+1:])
 		objName.quotedApart = true
 		return objName
 	}
 
-	tableName := NewRawIdent(name)
+	tableName := NewRawName(name)
+	unquoted := tableName.Name
+	if tableName.QuotationMark == "" {
+		unquoted = tableName.Raw
+	}
 	const hasSchema = 2
-	switch name := strings.Split(tableName.Name, "."); len(name) { //nolint:exhaustive
+	switch name := strings.Split(unquoted, "."); len(name) { //nolint:exhaustive
 	case hasSchema:
 		// CREATE TABLE "schema.table"
-		objName.Schema = NewRawIdent(tableName.QuotationMark + name[0] + tableName.QuotationMark)
-		objName.Name = NewRawIdent(tableName.QuotationMark + name[1] + tableName.QuotationMark)
+		objName.Schema = NewRawName(tableName.QuotationMark + name[0] + tableName.QuotationMark)
+		objName.Name = NewRawName(tableName.QuotationMark + name[1] + tableName.QuotationMark)
 	default:
 		// CREATE TABLE "table"
 		objName.Name = tableName
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 95239ab..37405e7 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -38,6 +38,15 @@ func NewRawIdent(raw string) *Ident {
 	}
 }
 
+// NewRawName is NewRawIdent for the name of a table, column, index or constraint: without quotes, its case does not matter.
+func NewRawName(raw string) *Ident {
+	ident := NewRawIdent(raw)
+	if ident.QuotationMark == "" {
+		ident.Name = strings.ToLower(ident.Name)
+	}
+	return ident
+}
+
 func NewIdent(name, quotationMark, raw string) *Ident {
 	return &Ident{
 		Name:          name,
@@ -223,7 +232,7 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 		return nil, apperr.Errorf("checkCurrentToken: %w", err)
 	}
 
-	createIndexStmt.Name = NewRawIdent(p.currentToken.Literal.Str)
+	createIndexStmt.Name = NewRawName(p.currentToken.Literal.Str)
 	errFmtPrefix := fmt.Sprintf("index_name=%s: ", createIndexStmt.Name.StringForDiff())
 
 	p.nextToken() // current = ON
@@ -271,7 +280,7 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 		return nil, nil, apperr.Errorf("checkCurrentToken: %w", err)
 	}
 
-	column.Name = NewRawIdent(p.currentToken.Literal.Str)
+	column.Name = NewRawName(p.currentToken.Literal.Str)
 	errFmtPrefix := fmt.Sprintf("column_name=%s: ", column.Name.StringForDiff())
 
 	p.nextToken() // current = DATA_TYPE
@@ -444,7 +453,7 @@ LabelConstraints:
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
 				Name:    newConstraintName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff()), tableName, &ColumnIdent{Ident: column.Name}),
-				Ref:     NewRawIdent(p.currentToken.Literal.Str),
+				Ref:     NewRawName(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
 			p.nextToken() // current = (
@@ -522,7 +531,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 		if p.currentToken.Type != TOKEN_IDENT {
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		}
-		constraintName = NewRawIdent(p.currentToken.Literal.Str)
+		constraintName = NewRawName(p.currentToken.Literal.Str)
 		p.nextToken() // current = PRIMARY or CHECK or UNIQUE //diff:ignore-line-postgres-cockroach
 	}
 
@@ -567,7 +576,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 		if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
 			return nil, apperr.Errorf("checkCurrentToken: %w", err)
 		}
-		refName := NewRawIdent(p.currentToken.Literal.Str)
+		refName := NewRawName(p.currentToken.Literal.Str)
 
 		p.nextToken() // current = (
 		identsRef, err := p.parseColumnIdents()
@@ -740,7 +749,7 @@ LabelIdents:
 		case TOKEN_OPEN_PAREN:
 			// do nothing
 		case TOKEN_IDENT:
-			ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
+			ident := &ColumnIdent{Ident: NewRawName(p.currentToken.Literal.Str)}
 			idents = append(idents, ident)
 		case TOKEN_COMMA:
 			// do nothing
-- 
2.43.0


From d2a75e1c4c21f5be9f09635317d2e3e651a8e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:04 +0000
Subject: [PATCH 50/69] fix: an index written as CREATE INDEX was dropped and
 created again at every run on MySQL and CockroachDB, which show it within
 CREATE TABLE

---
 pkg/ddl/cockroachdb/diff.go | 35 +++++++++++++++++++++++++++++++++++
 pkg/ddl/mysql/diff.go       | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 68 insertions(+)

diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index 096119d..cb4c50f 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -39,6 +39,8 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	before, after = inlineIndexes(before, after), inlineIndexes(after, before)
+
 	// DROP INDEX index_name;
 	// DROP TABLE table_name; MEMO: after the indexes, referencing tables before the tables they refer to.
 	dropTableStmts := make([]Stmt, 0)
@@ -134,6 +136,39 @@ func Diff(before, after *DDL) (*DDL, error) {
 	return result, nil
 }
 
+// inlineIndexes returns d with every CREATE INDEX that other writes within CREATE TABLE written so, too, as the database shows it.
+func inlineIndexes(d, other *DDL) *DDL {
+	result := &DDL{}
+	for _, stmt := range d.Stmts {
+		switch s := stmt.(type) {
+		case *CreateTableStmt:
+			table := *s
+			table.Constraints = append(make(Constraints, 0, len(s.Constraints)), s.Constraints...)
+			result.Stmts = append(result.Stmts, &table)
+			continue
+		case *CreateIndexStmt:
+			table := findCreateTableStmtByTableName(s.TableName, result.Stmts)
+			otherTable := findCreateTableStmtByTableName(s.TableName, other.Stmts)
+			if table == nil || otherTable == nil || findConstraintByName(s.Name.Name, table.Constraints) != nil {
+				break
+			}
+			if _, ok := findConstraintByName(s.Name.Name, otherTable.Constraints).(*IndexConstraint); ok {
+				table.Constraints = table.Constraints.Append(&IndexConstraint{
+					Name:             s.Name,
+					Unique:           s.Unique,
+					UsingPreColumns:  s.UsingPreColumns,
+					Columns:          s.Columns,
+					UsingPostColumns: s.UsingPostColumns,
+				})
+				continue
+			}
+		}
+		result.Stmts = append(result.Stmts, stmt)
+	}
+
+	return result
+}
+
 func onlyLeftStmt(left, right *DDL) []Stmt {
 	result := make([]Stmt, 0)
 
diff --git a/pkg/ddl/mysql/diff.go b/pkg/ddl/mysql/diff.go
index 0b57085..a74e4f4 100644
--- a/pkg/ddl/mysql/diff.go
+++ b/pkg/ddl/mysql/diff.go
@@ -39,6 +39,8 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	before, after = inlineIndexes(before, after), inlineIndexes(after, before)
+
 	// DROP INDEX index_name;
 	// DROP TABLE table_name; MEMO: after the indexes, referencing tables before the tables they refer to.
 	dropTableStmts := make([]Stmt, 0)
@@ -134,6 +136,37 @@ func Diff(before, after *DDL) (*DDL, error) {
 	return result, nil
 }
 
+// inlineIndexes returns d with every CREATE INDEX that other writes within CREATE TABLE written so, too, as the database shows it.
+func inlineIndexes(d, other *DDL) *DDL {
+	result := &DDL{}
+	for _, stmt := range d.Stmts {
+		switch s := stmt.(type) {
+		case *CreateTableStmt:
+			table := *s
+			table.Constraints = append(make(Constraints, 0, len(s.Constraints)), s.Constraints...)
+			result.Stmts = append(result.Stmts, &table)
+			continue
+		case *CreateIndexStmt:
+			table := findCreateTableStmtByTableName(s.TableName, result.Stmts)
+			otherTable := findCreateTableStmtByTableName(s.TableName, other.Stmts)
+			if table == nil || otherTable == nil || findConstraintByName(s.Name.Name.Name, table.Constraints) != nil {
+				break
+			}
+			if _, ok := findConstraintByName(s.Name.Name.Name, otherTable.Constraints).(*IndexConstraint); ok {
+				table.Constraints = table.Constraints.Append(&IndexConstraint{
+					Name:    s.Name.Name,
+					Unique:  s.Unique,
+					Columns: s.Columns,
+				})
+				continue
+			}
+		}
+		result.Stmts = append(result.Stmts, stmt)
+	}
+
+	return result
+}
+
 func onlyLeftStmt(left, right *DDL) []Stmt {
 	result := make([]Stmt, 0)
 
-- 
2.43.0


From c29752f053c804d68fd3d3fb3e200dfab26a031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:32 +0000
Subject: [PATCH 51/69] fix: MySQL and Spanner literals were compared without
 their quotation marks, so that the change from the default 'NULL' to NULL was
 not planned, and one with other quotes or escapes was planned at every run

---
 pkg/ddl/mysql/ddl.go               | 12 ++++++++++++
 pkg/ddl/mysql/ddl_table.go         |  8 ++++++--
 pkg/ddl/mysql/diff_create_table.go |  2 +-
 pkg/ddl/spanner/ddl.go             | 10 ++++++++++
 pkg/ddl/spanner/ddl_table.go       |  4 ++--
 5 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/pkg/ddl/mysql/ddl.go b/pkg/ddl/mysql/ddl.go
index b1c6855..3b788c5 100644
--- a/pkg/ddl/mysql/ddl.go
+++ b/pkg/ddl/mysql/ddl.go
@@ -1,6 +1,8 @@
 package mysql
 
 import (
+	"strings"
+
 	stringz "github.com/kunitsucom/util.go/strings"
 
 	"github.com/kunitsucom/ddlctl/pkg/ddl/internal"
@@ -79,6 +81,16 @@ func (i *Ident) StringForDiff() string {
 	return i.Name
 }
 
+// StringForDiffInExpr returns the string that tells a literal from the name or keyword of the same letters.
+func (i *Ident) StringForDiffInExpr() string {
+	if i == nil || (i.QuotationMark != "'" && i.QuotationMark != `"`) {
+		return i.StringForDiff()
+	}
+	// MEMO: 'it''s', 'it\'s' and "it's" are the same literal.
+	unescape := strings.NewReplacer(`\\`, `\\`, `\'`, `'`, `\"`, `"`, i.QuotationMark+i.QuotationMark, i.QuotationMark)
+	return "'" + strings.ReplaceAll(unescape.Replace(i.Name), "'", "''") + "'"
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 	Order *Order
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 655549a..6f5c044 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -240,7 +240,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.StringForDiffInExpr()
 	}
 	return str
 }
@@ -387,7 +387,11 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			if _, err := strconv.ParseFloat(v.Name, 64); err == nil {
+				str += v.StringForDiff() // MEMO: SHOW CREATE TABLE shows the default 0 as '0'.
+				continue
+			}
+			str += v.StringForDiffInExpr()
 		}
 		return str
 	}
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index fc4a5f8..c8cbf72 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -278,7 +278,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 			(!dropDefault && !implicitDefaultNull && beforeColumn.Default.StringForDiff() != afterColumn.Default.StringForDiff()) ||
 			beforeColumn.AutoIncrement != afterColumn.AutoIncrement ||
 			beforeColumn.OnAction != afterColumn.OnAction ||
-			beforeColumn.Comment != afterColumn.Comment {
+			NewRawIdent(beforeColumn.Comment).StringForDiffInExpr() != NewRawIdent(afterColumn.Comment).StringForDiffInExpr() {
 			// ALTER TABLE table_name MODIFY column_name data_type NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
diff --git a/pkg/ddl/spanner/ddl.go b/pkg/ddl/spanner/ddl.go
index bb35def..cbdd8f9 100644
--- a/pkg/ddl/spanner/ddl.go
+++ b/pkg/ddl/spanner/ddl.go
@@ -81,6 +81,16 @@ func (i *Ident) StringForDiff() string {
 	return i.Name
 }
 
+// StringForDiffInExpr returns the string that tells a literal from the name or keyword of the same letters.
+func (i *Ident) StringForDiffInExpr() string {
+	if i == nil || (i.QuotationMark != "'" && i.QuotationMark != `"`) {
+		return i.StringForDiff()
+	}
+	// MEMO: 'it\'s' and "it's" are the same literal.
+	unescape := strings.NewReplacer(`\\`, `\\`, `\'`, `'`, `\"`, `"`)
+	return "'" + strings.ReplaceAll(unescape.Replace(i.Name), "'", `\'`) + "'"
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 	Order *Order //diff:ignore-line-postgres-cockroach
diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index a94e8c5..40a8c7c 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -137,7 +137,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.StringForDiffInExpr()
 	}
 	return str
 }
@@ -278,7 +278,7 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			str += v.StringForDiffInExpr()
 		}
 		str += ")"
 		return str
-- 
2.43.0


From 41dce62752a3e5f1a5e07030f7a2deae7a5c694c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:48 +0000
Subject: [PATCH 52/69] fix: other spellings of CURRENT_TIMESTAMP and of truth
 values as defaults were planned as changes at every run

---
 pkg/ddl/cockroachdb/diff_create_table.go |  3 +++
 pkg/ddl/mysql/ddl_table.go               | 23 ++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index 202fc62..851ef42 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -341,6 +341,9 @@ func equalDefault(before, after *Default) bool {
 		return false
 	}
 	beforeDefault = (&Default{Value: withoutTypeAnnotation(before.Value)}).StringForDiff()
+	if strings.ToUpper(afterDefault) == "DEFAULT CURRENT_TIMESTAMP" {
+		afterDefault = "DEFAULT current_timestamp ( )"
+	}
 	return beforeDefault == afterDefault || negativeNumber.ReplaceAllString(beforeDefault, "DEFAULT - $1") == afterDefault
 }
 
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 6f5c044..f107b9a 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -393,11 +393,32 @@ func (d *Default) StringForDiff() string {
 			}
 			str += v.StringForDiffInExpr()
 		}
-		return str
+		return defaultSynonym(str)
 	}
 	return ""
 }
 
+// defaultSynonym returns the default value as SHOW CREATE TABLE shows it.
+func defaultSynonym(value string) string {
+	upper := strings.ToUpper(value)
+	for _, name := range []string{"NOW", "CURRENT_TIMESTAMP", "LOCALTIME", "LOCALTIMESTAMP"} {
+		switch {
+		case upper == "DEFAULT "+name, upper == "DEFAULT "+name+" ( )":
+			return "DEFAULT CURRENT_TIMESTAMP"
+		case strings.HasPrefix(upper, "DEFAULT "+name+" ( "):
+			return "DEFAULT CURRENT_TIMESTAMP" + strings.TrimPrefix(upper, "DEFAULT "+name)
+		}
+	}
+	switch upper {
+	case "DEFAULT TRUE":
+		return "DEFAULT 1"
+	case "DEFAULT FALSE":
+		return "DEFAULT 0"
+	default:
+		return value
+	}
+}
+
 func (c *Column) String() string {
 	str := c.Name.String() + " " + c.DataType.String()
 	if s := c.CharacterSet.String(); s != "" {
-- 
2.43.0


From 9ce2fe4d4fac8547027b84d067ed57f6957ed740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:00 +0000
Subject: [PATCH 53/69] fix: a MySQL column was planned as changed at every run
 where ON UPDATE or a function of its default is written in other letter case

---
 pkg/ddl/mysql/ddl_table.go         | 4 ++++
 pkg/ddl/mysql/diff_create_table.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index f107b9a..25f1b25 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -391,6 +391,10 @@ func (d *Default) StringForDiff() string {
 				str += v.StringForDiff() // MEMO: SHOW CREATE TABLE shows the default 0 as '0'.
 				continue
 			}
+			if i+1 < len(d.Value.Idents) && d.Value.Idents[i+1].Name == "(" {
+				str += strings.ToUpper(v.StringForDiffInExpr()) // MEMO: SHOW CREATE TABLE shows the names of functions in lower case.
+				continue
+			}
 			str += v.StringForDiffInExpr()
 		}
 		return defaultSynonym(str)
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index c8cbf72..fd45223 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -277,7 +277,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 			beforeColumn.NotNull != afterColumn.NotNull ||
 			(!dropDefault && !implicitDefaultNull && beforeColumn.Default.StringForDiff() != afterColumn.Default.StringForDiff()) ||
 			beforeColumn.AutoIncrement != afterColumn.AutoIncrement ||
-			beforeColumn.OnAction != afterColumn.OnAction ||
+			!strings.EqualFold(beforeColumn.OnAction, afterColumn.OnAction) ||
 			NewRawIdent(beforeColumn.Comment).StringForDiffInExpr() != NewRawIdent(afterColumn.Comment).StringForDiffInExpr() {
 			// ALTER TABLE table_name MODIFY column_name data_type NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
-- 
2.43.0


From 3c2b1c53a19bb0f8b463ecfe738fc4cbd135a4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:46 +0000
Subject: [PATCH 54/69] fix: the name made for an unnamed foreign key of a
 CockroachDB or Spanner table held " ASC", which the database rejects

---
 pkg/ddl/cockroachdb/parser.go | 2 +-
 pkg/ddl/spanner/parser.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 6cd84a7..8265794 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -763,7 +763,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
 			constraintName = constraints.unusedName(name, tableName, idents...)
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 81e9c83..bc91835 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -673,7 +673,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
 			constraintName = constraints.unusedName(name)
-- 
2.43.0


From d15a7f551242478b8ec5c6354d86b6c84df53efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:54 +0000
Subject: [PATCH 55/69] fix: a PostgreSQL or CockroachDB NUMERIC with no scale
 was planned as changed at every run because it is shown with the scale 0

---
 pkg/ddl/cockroachdb/ddl.go | 3 +++
 pkg/ddl/postgres/ddl.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/ddl/cockroachdb/ddl.go b/pkg/ddl/cockroachdb/ddl.go
index c1ff0af..11f348d 100644
--- a/pkg/ddl/cockroachdb/ddl.go
+++ b/pkg/ddl/cockroachdb/ddl.go
@@ -149,6 +149,9 @@ func (s *DataType) StringForDiff() string {
 		for _, ident := range s.Expr.Idents {
 			str += ident.StringForDiff()
 		}
+		if len(s.Expr.Idents) == 1 && (s.Type == TOKEN_NUMERIC || s.Type == TOKEN_DECIMAL) {
+			str += ",0" // MEMO: information_schema always shows the scale.
+		}
 		str += ")"
 	}
 
diff --git a/pkg/ddl/postgres/ddl.go b/pkg/ddl/postgres/ddl.go
index 8b044d5..775afd6 100644
--- a/pkg/ddl/postgres/ddl.go
+++ b/pkg/ddl/postgres/ddl.go
@@ -131,6 +131,9 @@ func (s *DataType) StringForDiff() string {
 		for _, ident := range s.Expr.Idents {
 			str += ident.StringForDiff()
 		}
+		if len(s.Expr.Idents) == 1 && (s.Type == TOKEN_NUMERIC || s.Type == TOKEN_DECIMAL) {
+			str += ",0" // MEMO: information_schema always shows the scale.
+		}
 		str += ")"
 	}
 
-- 
2.43.0


From 3a24daf1416524f615899fa1cfd0bba74f8b20f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:08 +0000
Subject: [PATCH 56/69] fix: a plan created or dropped tables in the order of
 the file or of their names, also where one refers to another

---
 pkg/ddl/cockroachdb/diff.go | 57 ++++++++++++++++++++++++++++---
 pkg/ddl/mysql/diff.go       | 57 ++++++++++++++++++++++++++++---
 pkg/ddl/postgres/diff.go    | 57 ++++++++++++++++++++++++++++---
 pkg/ddl/spanner/diff.go     | 67 +++++++++++++++++++++++++++++++++----
 4 files changed, 217 insertions(+), 21 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index cb4c50f..dcc1fe7 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -47,9 +47,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	for _, stmt := range onlyLeftStmt(before, after) {
 		switch beforeStmt := stmt.(type) {
 		case *CreateTableStmt:
-			dropTableStmts = append([]Stmt{&DropTableStmt{
-				Name: beforeStmt.Name,
-			}}, dropTableStmts...)
+			dropTableStmts = append(dropTableStmts, beforeStmt)
 		case *CreateIndexStmt:
 			result.Stmts = append(result.Stmts, &DropIndexStmt{
 				Name: beforeStmt.Name,
@@ -59,7 +57,12 @@ func Diff(before, after *DDL) (*DDL, error) {
 		}
 	}
 
-	result.Stmts = append(result.Stmts, dropTableStmts...)
+	dropTableStmts = orderByReference(dropTableStmts)
+	for i := len(dropTableStmts) - 1; i >= 0; i-- {
+		result.Stmts = append(result.Stmts, &DropTableStmt{
+			Name: dropTableStmts[i].(*CreateTableStmt).Name, //nolint:forcetypeassert
+		})
+	}
 
 	// CREATE TABLE table_name
 	// CREATE INDEX index_name ... MEMO: an index of an existing table may use a column that is yet to be added.
@@ -126,7 +129,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	result.Stmts = append(dropForeignKeyStmts, result.Stmts...)
 	result.Stmts = append(result.Stmts, alterStmts...)
 	result.Stmts = append(result.Stmts, createIndexStmts...)
-	result.Stmts = append(result.Stmts, createTableStmts...)
+	result.Stmts = append(result.Stmts, orderByReference(createTableStmts)...)
 	result.Stmts = append(result.Stmts, addForeignKeyStmts...)
 
 	if len(result.Stmts) == 0 {
@@ -169,6 +172,50 @@ func inlineIndexes(d, other *DDL) *DDL {
 	return result
 }
 
+// orderByReference returns stmts in their order, except that a table that another one refers to comes before it, with its unique indexes.
+func orderByReference(stmts []Stmt) []Stmt {
+	result := make([]Stmt, 0, len(stmts))
+	visited := make(map[Stmt]bool, len(stmts))
+
+	var visitTable func(name string)
+	visit := func(stmt Stmt) {
+		if visited[stmt] {
+			return
+		}
+		visited[stmt] = true
+		if s, ok := stmt.(*CreateTableStmt); ok {
+			for _, constraint := range s.Constraints {
+				if foreignKey, ok := constraint.(*ForeignKeyConstraint); ok {
+					if name := NewObjectName(foreignKey.Ref.Raw).nameForDiff(); name != s.Name.nameForDiff() {
+						visitTable(name)
+					}
+				}
+			}
+		}
+		result = append(result, stmt)
+	}
+	visitTable = func(name string) {
+		for _, stmt := range stmts {
+			switch s := stmt.(type) {
+			case *CreateTableStmt:
+				if s.Name.nameForDiff() == name {
+					visit(s)
+				}
+			case *CreateIndexStmt:
+				if s.Unique && s.TableName.nameForDiff() == name {
+					visit(s)
+				}
+			}
+		}
+	}
+
+	for _, stmt := range stmts {
+		visit(stmt)
+	}
+
+	return result
+}
+
 func onlyLeftStmt(left, right *DDL) []Stmt {
 	result := make([]Stmt, 0)
 
diff --git a/pkg/ddl/mysql/diff.go b/pkg/ddl/mysql/diff.go
index a74e4f4..4600fc1 100644
--- a/pkg/ddl/mysql/diff.go
+++ b/pkg/ddl/mysql/diff.go
@@ -47,9 +47,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	for _, stmt := range onlyLeftStmt(before, after) {
 		switch beforeStmt := stmt.(type) {
 		case *CreateTableStmt:
-			dropTableStmts = append([]Stmt{&DropTableStmt{
-				Name: beforeStmt.Name,
-			}}, dropTableStmts...)
+			dropTableStmts = append(dropTableStmts, beforeStmt)
 		case *CreateIndexStmt:
 			result.Stmts = append(result.Stmts, &DropIndexStmt{
 				Name: beforeStmt.Name,
@@ -59,7 +57,12 @@ func Diff(before, after *DDL) (*DDL, error) {
 		}
 	}
 
-	result.Stmts = append(result.Stmts, dropTableStmts...)
+	dropTableStmts = orderByReference(dropTableStmts)
+	for i := len(dropTableStmts) - 1; i >= 0; i-- {
+		result.Stmts = append(result.Stmts, &DropTableStmt{
+			Name: dropTableStmts[i].(*CreateTableStmt).Name, //nolint:forcetypeassert
+		})
+	}
 
 	// CREATE TABLE table_name
 	// CREATE INDEX index_name ... MEMO: an index of an existing table may use a column that is yet to be added.
@@ -126,7 +129,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	result.Stmts = append(dropForeignKeyStmts, result.Stmts...)
 	result.Stmts = append(result.Stmts, alterStmts...)
 	result.Stmts = append(result.Stmts, createIndexStmts...)
-	result.Stmts = append(result.Stmts, createTableStmts...)
+	result.Stmts = append(result.Stmts, orderByReference(createTableStmts)...)
 	result.Stmts = append(result.Stmts, addForeignKeyStmts...)
 
 	if len(result.Stmts) == 0 {
@@ -167,6 +170,50 @@ func inlineIndexes(d, other *DDL) *DDL {
 	return result
 }
 
+// orderByReference returns stmts in their order, except that a table that another one refers to comes before it, with its unique indexes.
+func orderByReference(stmts []Stmt) []Stmt {
+	result := make([]Stmt, 0, len(stmts))
+	visited := make(map[Stmt]bool, len(stmts))
+
+	var visitTable func(name string)
+	visit := func(stmt Stmt) {
+		if visited[stmt] {
+			return
+		}
+		visited[stmt] = true
+		if s, ok := stmt.(*CreateTableStmt); ok {
+			for _, constraint := range s.Constraints {
+				if foreignKey, ok := constraint.(*ForeignKeyConstraint); ok {
+					if name := foreignKey.Ref.Name; name != s.Name.StringForDiff() {
+						visitTable(name)
+					}
+				}
+			}
+		}
+		result = append(result, stmt)
+	}
+	visitTable = func(name string) {
+		for _, stmt := range stmts {
+			switch s := stmt.(type) {
+			case *CreateTableStmt:
+				if s.Name.StringForDiff() == name {
+					visit(s)
+				}
+			case *CreateIndexStmt:
+				if s.Unique && s.TableName.StringForDiff() == name {
+					visit(s)
+				}
+			}
+		}
+	}
+
+	for _, stmt := range stmts {
+		visit(stmt)
+	}
+
+	return result
+}
+
 func onlyLeftStmt(left, right *DDL) []Stmt {
 	result := make([]Stmt, 0)
 
diff --git a/pkg/ddl/postgres/diff.go b/pkg/ddl/postgres/diff.go
index 5837147..456d97f 100644
--- a/pkg/ddl/postgres/diff.go
+++ b/pkg/ddl/postgres/diff.go
@@ -45,9 +45,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	for _, stmt := range onlyLeftStmt(before, after) {
 		switch beforeStmt := stmt.(type) {
 		case *CreateTableStmt:
-			dropTableStmts = append([]Stmt{&DropTableStmt{
-				Name: beforeStmt.Name,
-			}}, dropTableStmts...)
+			dropTableStmts = append(dropTableStmts, beforeStmt)
 		case *CreateIndexStmt:
 			result.Stmts = append(result.Stmts, &DropIndexStmt{
 				Name: beforeStmt.Name,
@@ -57,7 +55,12 @@ func Diff(before, after *DDL) (*DDL, error) {
 		}
 	}
 
-	result.Stmts = append(result.Stmts, dropTableStmts...)
+	dropTableStmts = orderByReference(dropTableStmts)
+	for i := len(dropTableStmts) - 1; i >= 0; i-- {
+		result.Stmts = append(result.Stmts, &DropTableStmt{
+			Name: dropTableStmts[i].(*CreateTableStmt).Name, //nolint:forcetypeassert
+		})
+	}
 
 	// CREATE TABLE table_name
 	// CREATE INDEX index_name ... MEMO: an index of an existing table may use a column that is yet to be added.
@@ -124,7 +127,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	result.Stmts = append(dropForeignKeyStmts, result.Stmts...)
 	result.Stmts = append(result.Stmts, alterStmts...)
 	result.Stmts = append(result.Stmts, createIndexStmts...)
-	result.Stmts = append(result.Stmts, createTableStmts...)
+	result.Stmts = append(result.Stmts, orderByReference(createTableStmts)...)
 	result.Stmts = append(result.Stmts, addForeignKeyStmts...)
 
 	if len(result.Stmts) == 0 {
@@ -134,6 +137,50 @@ func Diff(before, after *DDL) (*DDL, error) {
 	return result, nil
 }
 
+// orderByReference returns stmts in their order, except that a table that another one refers to comes before it, with its unique indexes.
+func orderByReference(stmts []Stmt) []Stmt {
+	result := make([]Stmt, 0, len(stmts))
+	visited := make(map[Stmt]bool, len(stmts))
+
+	var visitTable func(name string)
+	visit := func(stmt Stmt) {
+		if visited[stmt] {
+			return
+		}
+		visited[stmt] = true
+		if s, ok := stmt.(*CreateTableStmt); ok {
+			for _, constraint := range s.Constraints {
+				if foreignKey, ok := constraint.(*ForeignKeyConstraint); ok {
+					if name := NewObjectName(foreignKey.Ref.Raw).nameForDiff(); name != s.Name.nameForDiff() {
+						visitTable(name)
+					}
+				}
+			}
+		}
+		result = append(result, stmt)
+	}
+	visitTable = func(name string) {
+		for _, stmt := range stmts {
+			switch s := stmt.(type) {
+			case *CreateTableStmt:
+				if s.Name.nameForDiff() == name {
+					visit(s)
+				}
+			case *CreateIndexStmt:
+				if s.Unique && s.TableName.nameForDiff() == name {
+					visit(s)
+				}
+			}
+		}
+	}
+
+	for _, stmt := range stmts {
+		visit(stmt)
+	}
+
+	return result
+}
+
 func onlyLeftStmt(left, right *DDL) []Stmt {
 	result := make([]Stmt, 0)
 
diff --git a/pkg/ddl/spanner/diff.go b/pkg/ddl/spanner/diff.go
index 8b2ee46..aa1e819 100644
--- a/pkg/ddl/spanner/diff.go
+++ b/pkg/ddl/spanner/diff.go
@@ -45,9 +45,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	for _, stmt := range onlyLeftStmt(before, after) {
 		switch beforeStmt := stmt.(type) {
 		case *CreateTableStmt:
-			dropTableStmts = append([]Stmt{&DropTableStmt{
-				Name: beforeStmt.Name,
-			}}, dropTableStmts...)
+			dropTableStmts = append(dropTableStmts, beforeStmt)
 		case *CreateIndexStmt:
 			result.Stmts = append(result.Stmts, &DropIndexStmt{
 				Name: beforeStmt.Name,
@@ -57,26 +55,34 @@ func Diff(before, after *DDL) (*DDL, error) {
 		}
 	}
 
-	result.Stmts = append(result.Stmts, dropTableStmts...)
+	dropTableStmts = orderByReference(dropTableStmts)
+	for i := len(dropTableStmts) - 1; i >= 0; i-- {
+		result.Stmts = append(result.Stmts, &DropTableStmt{
+			Name: dropTableStmts[i].(*CreateTableStmt).Name, //nolint:forcetypeassert
+		})
+	}
 
 	// CREATE TABLE table_name
 	// CREATE INDEX index_name ... MEMO: an index of an existing table may use a column that is yet to be added.
+	createTableStmts := make([]Stmt, 0)
 	createIndexStmts := make([]Stmt, 0)
 	for _, stmt := range onlyLeftStmt(after, before) {
 		switch afterStmt := stmt.(type) {
 		case *CreateTableStmt:
-			result.Stmts = append(result.Stmts, afterStmt)
+			createTableStmts = append(createTableStmts, afterStmt)
 		case *CreateIndexStmt:
 			if findCreateTableStmtByTableName(afterStmt.TableName, before.Stmts) != nil {
 				createIndexStmts = append(createIndexStmts, afterStmt)
 				continue
 			}
-			result.Stmts = append(result.Stmts, afterStmt)
+			createTableStmts = append(createTableStmts, afterStmt)
 		default:
 			return nil, apperr.Errorf("%s: %T: %w", afterStmt.GetNameForDiff(), afterStmt, ddl.ErrNotSupported)
 		}
 	}
 
+	result.Stmts = append(result.Stmts, orderByReference(createTableStmts)...)
+
 	// DROP INDEX index_name; ALTER TABLE table_name ...; CREATE INDEX index_name ...
 	// MEMO: a foreign key is dropped before and added after everything else, because what it refers to may change too.
 	alterStmts := make([]Stmt, 0)
@@ -136,6 +142,55 @@ func Diff(before, after *DDL) (*DDL, error) {
 	return result, nil
 }
 
+// orderByReference returns stmts in their order, except that a table that another one refers to comes before it, with its unique indexes.
+func orderByReference(stmts []Stmt) []Stmt {
+	result := make([]Stmt, 0, len(stmts))
+	visited := make(map[Stmt]bool, len(stmts))
+
+	var visitTable func(name string)
+	visit := func(stmt Stmt) {
+		if visited[stmt] {
+			return
+		}
+		visited[stmt] = true
+		if s, ok := stmt.(*CreateTableStmt); ok {
+			for _, constraint := range s.Constraints {
+				if foreignKey, ok := constraint.(*ForeignKeyConstraint); ok {
+					if name := foreignKey.Ref.Name; name != s.Name.StringForDiff() {
+						visitTable(name)
+					}
+				}
+			}
+			for _, option := range s.Options {
+				if option.Name == "INTERLEAVE IN PARENT" {
+					visitTable(option.Value.Idents[0].Name)
+				}
+			}
+		}
+		result = append(result, stmt)
+	}
+	visitTable = func(name string) {
+		for _, stmt := range stmts {
+			switch s := stmt.(type) {
+			case *CreateTableStmt:
+				if s.Name.StringForDiff() == name {
+					visit(s)
+				}
+			case *CreateIndexStmt:
+				if s.Unique && s.TableName.StringForDiff() == name {
+					visit(s)
+				}
+			}
+		}
+	}
+
+	for _, stmt := range stmts {
+		visit(stmt)
+	}
+
+	return result
+}
+
 func onlyLeftStmt(left, right *DDL) []Stmt {
 	result := make([]Stmt, 0)
 
-- 
2.43.0


From 9ee2f3e2c67f33e17fc2aa5251af2408b78a2204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:44 +0000
Subject: [PATCH 57/69] fix: an index or unique constraint that loses a dropped
 column was dropped after the column, with which it had gone

---
 pkg/ddl/cockroachdb/diff_create_table.go | 47 +++++++++++++++++-------
 pkg/ddl/postgres/diff_create_table.go    | 19 +++++++++-
 2 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index 851ef42..92b1899 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -108,6 +108,14 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 				},
 			})
 		}
+		if isChangedWithDroppedColumn(beforeConstraint, afterConstraint, after.Columns) {
+			// NOTE: an index would be dropped together with its column.
+			// DROP INDEX index_name;
+			result.Stmts = append(result.Stmts, &DropIndexStmt{
+				Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
+				Name:    beforeConstraint.GetName(),
+			})
+		}
 	}
 
 	config.diffCreateTableColumn(result, before, after)
@@ -120,21 +128,20 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 				case *IndexConstraint: //diff:ignore-line-postgres-cockroach
 					// DROP INDEX index_name;                               //diff:ignore-line-postgres-cockroach
 					// CREATE INDEX index_name ON table_name (column_name); //diff:ignore-line-postgres-cockroach
-					result.Stmts = append( //diff:ignore-line-postgres-cockroach
-						result.Stmts, //diff:ignore-line-postgres-cockroach
-						&DropIndexStmt{ //diff:ignore-line-postgres-cockroach
+					if !isChangedWithDroppedColumn(beforeConstraint, afterConstraint, after.Columns) { //diff:ignore-line-postgres-cockroach
+						result.Stmts = append(result.Stmts, &DropIndexStmt{ //diff:ignore-line-postgres-cockroach
 							Comment: simplediff.Diff(beforeConstraint.String(), afterConstraint.String()).String(), //diff:ignore-line-postgres-cockroach
 							Name:    beforeConstraint.GetName(),                                                    //diff:ignore-line-postgres-cockroach
-						}, //diff:ignore-line-postgres-cockroach
-						&CreateIndexStmt{ //diff:ignore-line-postgres-cockroach
-							Unique:           ac.Unique,           //diff:ignore-line-postgres-cockroach
-							Name:             ac.GetName(),        //diff:ignore-line-postgres-cockroach
-							TableName:        after.Name,          //diff:ignore-line-postgres-cockroach
-							UsingPreColumns:  ac.UsingPreColumns,  //diff:ignore-line-postgres-cockroach
-							Columns:          ac.Columns,          //diff:ignore-line-postgres-cockroach
-							UsingPostColumns: ac.UsingPostColumns, //diff:ignore-line-postgres-cockroach
-						}, //diff:ignore-line-postgres-cockroach
-					) //diff:ignore-line-postgres-cockroach
+						}) //diff:ignore-line-postgres-cockroach
+					} //diff:ignore-line-postgres-cockroach
+					result.Stmts = append(result.Stmts, &CreateIndexStmt{ //diff:ignore-line-postgres-cockroach
+						Unique:           ac.Unique,           //diff:ignore-line-postgres-cockroach
+						Name:             ac.GetName(),        //diff:ignore-line-postgres-cockroach
+						TableName:        after.Name,          //diff:ignore-line-postgres-cockroach
+						UsingPreColumns:  ac.UsingPreColumns,  //diff:ignore-line-postgres-cockroach
+						Columns:          ac.Columns,          //diff:ignore-line-postgres-cockroach
+						UsingPostColumns: ac.UsingPostColumns, //diff:ignore-line-postgres-cockroach
+					}) //diff:ignore-line-postgres-cockroach
 				default: //diff:ignore-line-postgres-cockroach
 					// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
 					// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
@@ -215,6 +222,20 @@ func isPrimaryKeyChanged(before, after Constraint) bool {
 	return ok && before.StringForDiff() != after.StringForDiff()
 }
 
+// isChangedWithDroppedColumn returns true if the constraint is an index of which the definition is changed and a column is dropped.
+func isChangedWithDroppedColumn(before, after Constraint, columns []*Column) bool {
+	b, ok := before.(*IndexConstraint)
+	if !ok || before.StringForDiff() == after.StringForDiff() {
+		return false
+	}
+	for _, column := range b.Columns {
+		if findColumnByName(column.Ident.Name, columns) == nil {
+			return true
+		}
+	}
+	return false
+}
+
 // isNotNullColumn returns true if the column cannot be NULL, by itself or because it is a part of the primary key.
 func isNotNullColumn(column *Column, constraints Constraints) bool {
 	if column.NotNull {
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index 25dd321..e54541a 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -87,8 +87,9 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			})
 			continue
 		}
-		if isPrimaryKeyChanged(beforeConstraint, afterConstraint) {
+		if isPrimaryKeyChanged(beforeConstraint, afterConstraint) || isChangedWithDroppedColumn(beforeConstraint, afterConstraint, after.Columns) {
 			// NOTE: the primary key is dropped before its columns are changed or dropped, and added again after that.
+			// NOTE: a unique constraint would be dropped together with its column.
 			// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
 			result.Stmts = append(result.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
@@ -108,7 +109,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			if !equalConstraint(beforeConstraint, afterConstraint) {
 				// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
 				// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
-				if !isPrimaryKeyChanged(beforeConstraint, afterConstraint) {
+				if !isPrimaryKeyChanged(beforeConstraint, afterConstraint) && !isChangedWithDroppedColumn(beforeConstraint, afterConstraint, after.Columns) {
 					result.Stmts = append(result.Stmts, &AlterTableStmt{
 						Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
 						Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
@@ -164,6 +165,20 @@ func isPrimaryKeyChanged(before, after Constraint) bool {
 	return ok && before.StringForDiff() != after.StringForDiff()
 }
 
+// isChangedWithDroppedColumn returns true if the constraint is a unique constraint of which the definition is changed and a column is dropped.
+func isChangedWithDroppedColumn(before, after Constraint, columns []*Column) bool {
+	b, ok := before.(*UniqueConstraint)
+	if !ok || before.StringForDiff() == after.StringForDiff() {
+		return false
+	}
+	for _, column := range b.Columns {
+		if findColumnByName(column.Ident.Name, columns) == nil {
+			return true
+		}
+	}
+	return false
+}
+
 // isNotNullColumn returns true if the column cannot be NULL, by itself or because it is a part of the primary key.
 func isNotNullColumn(column *Column, constraints Constraints) bool {
 	if column.NotNull {
-- 
2.43.0


From 7c2f33b193a787fdaa873be09dec678d0db69459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:24 +0000
Subject: [PATCH 58/69] fix: a Spanner table was dropped and created again at
 every run where the keywords or names of its options are written in other
 letter case

---
 pkg/ddl/spanner/diff_create_table.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/spanner/diff_create_table.go b/pkg/ddl/spanner/diff_create_table.go
index 383eb18..eb1cc4f 100644
--- a/pkg/ddl/spanner/diff_create_table.go
+++ b/pkg/ddl/spanner/diff_create_table.go
@@ -2,6 +2,7 @@ package spanner
 
 import (
 	"reflect"
+	"strings"
 
 	"github.com/kunitsucom/util.go/exp/diff/simplediff"
 
@@ -52,7 +53,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			Name: before.Name,
 		})
 		return result, nil
-	case before.Options.StringForDiff() != after.Options.StringForDiff():
+	case !strings.EqualFold(before.Options.StringForDiff(), after.Options.StringForDiff()): // MEMO: neither names nor keywords are case-sensitive.
 		result.Stmts = append(result.Stmts,
 			&DropTableStmt{
 				Comment: simplediff.Diff(before.Options.String(), after.Options.String()).String(),
@@ -138,7 +139,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 		})
 	}
 
-	if before.RowDeletionPolicy.StringForDiff() != after.RowDeletionPolicy.StringForDiff() {
+	if !strings.EqualFold(before.RowDeletionPolicy.StringForDiff(), after.RowDeletionPolicy.StringForDiff()) {
 		switch {
 		case before.RowDeletionPolicy == nil:
 			// ALTER TABLE table_name ADD ROW DELETION POLICY
-- 
2.43.0


From 7978d5f7849cdff62cae4896156ff4f5d6994eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:13 +0000
Subject: [PATCH 59/69] fix: a CHECK constraint was planned to be dropped and
 added at every run where its names or keywords are written in other letter
 case

---
 pkg/ddl/cockroachdb/ddl.go       | 11 +++++++++++
 pkg/ddl/cockroachdb/ddl_table.go |  8 ++------
 pkg/ddl/mysql/ddl_table.go       |  6 +++++-
 pkg/ddl/postgres/ddl.go          | 11 +++++++++++
 pkg/ddl/postgres/ddl_table.go    |  8 ++------
 5 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl.go b/pkg/ddl/cockroachdb/ddl.go
index 11f348d..c6ae8d9 100644
--- a/pkg/ddl/cockroachdb/ddl.go
+++ b/pkg/ddl/cockroachdb/ddl.go
@@ -1,6 +1,8 @@
 package cockroachdb
 
 import (
+	"strings"
+
 	stringz "github.com/kunitsucom/util.go/strings"
 
 	"github.com/kunitsucom/ddlctl/pkg/ddl/internal"
@@ -79,6 +81,15 @@ func (i *Ident) StringForDiff() string {
 	return i.Name
 }
 
+// stringForDiffInExpr returns the string that does not depend on the letter case of names and keywords, e.g. now() and NOW().
+func (i *Ident) stringForDiffInExpr() string {
+	s := i.StringForDiff()
+	if i == nil || i.QuotationMark != "" || strings.ContainsAny(s, "'\"$") {
+		return s
+	}
+	return strings.ToLower(s)
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 	Order *Order //diff:ignore-line-postgres-cockroach
diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index fd73e19..31ad667 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -256,7 +256,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.stringForDiffInExpr()
 	}
 	return str
 }
@@ -444,11 +444,7 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			if s := v.StringForDiff(); v.QuotationMark != "" || strings.ContainsAny(s, "'\"$") {
-				str += s
-			} else { // MEMO: names and keywords are not case-sensitive, e.g. now() and NOW()
-				str += strings.ToLower(s)
-			}
+			str += v.stringForDiffInExpr()
 		}
 		return str
 	}
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 25f1b25..63bf51a 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -240,7 +240,11 @@ func (c *CheckConstraint) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiffInExpr()
+		if s := v.StringForDiffInExpr(); strings.HasPrefix(s, "'") {
+			str += s
+		} else { // MEMO: names and keywords are not case-sensitive.
+			str += strings.ToLower(s)
+		}
 	}
 	return str
 }
diff --git a/pkg/ddl/postgres/ddl.go b/pkg/ddl/postgres/ddl.go
index 775afd6..4a44b49 100644
--- a/pkg/ddl/postgres/ddl.go
+++ b/pkg/ddl/postgres/ddl.go
@@ -1,6 +1,8 @@
 package postgres
 
 import (
+	"strings"
+
 	stringz "github.com/kunitsucom/util.go/strings"
 
 	"github.com/kunitsucom/ddlctl/pkg/ddl/internal"
@@ -79,6 +81,15 @@ func (i *Ident) StringForDiff() string {
 	return i.Name
 }
 
+// stringForDiffInExpr returns the string that does not depend on the letter case of names and keywords, e.g. now() and NOW().
+func (i *Ident) stringForDiffInExpr() string {
+	s := i.StringForDiff()
+	if i == nil || i.QuotationMark != "" || strings.ContainsAny(s, "'\"$") {
+		return s
+	}
+	return strings.ToLower(s)
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 }
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index 85c75a8..f4692c0 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -225,7 +225,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.stringForDiffInExpr()
 	}
 	return str
 }
@@ -410,11 +410,7 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			if s := v.StringForDiff(); v.QuotationMark != "" || strings.ContainsAny(s, "'\"$") {
-				str += s
-			} else { // MEMO: names and keywords are not case-sensitive, e.g. now() and NOW()
-				str += strings.ToLower(s)
-			}
+			str += v.stringForDiffInExpr()
 		}
 		return str
 	}
-- 
2.43.0


From af2cff874a3349e90cf0155ad3bcb63d7329cb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:31 +0000
Subject: [PATCH 60/69] fix: a MySQL table option was planned as changed at
 every run where its value is written in other letter case

---
 pkg/ddl/mysql/diff_create_table.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index fd45223..f8881ed 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -205,7 +205,11 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			afterOption = &Option{Name: beforeOption.Name, Value: (&Expr{}).Append(NewRawIdent("''"))}
 		}
 		if afterOption != nil {
-			if beforeOption.StringForDiff() != afterOption.StringForDiff() {
+			isEqual := strings.EqualFold // MEMO: the names of engines, character sets and collations are not case-sensitive.
+			if strings.ToUpper(beforeOption.Name) == "COMMENT" {
+				isEqual = func(before, after string) bool { return before == after }
+			}
+			if !isEqual(beforeOption.StringForDiff(), afterOption.StringForDiff()) {
 				// ALTER TABLE table_name option_name=option_value;
 				result.Stmts = append(result.Stmts, &AlterTableStmt{
 					Comment: simplediff.Diff(beforeOption.String(), afterOption.String()).String(),
-- 
2.43.0


From 0f83d6e87bdfd81eb85d531c066822df04ba7e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:11 +0000
Subject: [PATCH 61/69] fix: a MySQL foreign key was planned to be dropped and
 added at every run where its actions are written in lower case, in another
 order or as NO ACTION

---
 pkg/ddl/mysql/ddl_table.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 63bf51a..fc76f72 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -160,8 +160,10 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 		str += v.StringForDiff()
 	}
 	str += ")"
-	if c.OnAction != "" {
-		str += " " + c.OnAction
+	for _, event := range []string{" ON DELETE ", " ON UPDATE "} { // MEMO: the order of the actions does not matter, and SHOW CREATE TABLE does not show NO ACTION, which is the default.
+		if strings.Contains(" "+strings.ToUpper(c.OnAction), event+"CASCADE") {
+			str += event + "CASCADE"
+		}
 	}
 	return str
 }
-- 
2.43.0


From c2128eee7658d537d0aa6d5b198a9e0a23897392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:28 +0000
Subject: [PATCH 62/69] fix: a MySQL column was planned as changed at every run
 where its character set or collation is written in other letter case

---
 pkg/ddl/mysql/diff_create_table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index f8881ed..0ad8c26 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -276,8 +276,8 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 		dropDefault := beforeColumn.Default != nil && afterColumn.Default == nil && !implicitDefaultNull
 
 		if beforeColumn.DataType.StringForDiff() != afterColumn.DataType.StringForDiff() ||
-			beforeColumn.CharacterSet.StringForDiff() != afterColumn.CharacterSet.StringForDiff() ||
-			beforeColumn.Collate.StringForDiff() != afterColumn.Collate.StringForDiff() ||
+			!strings.EqualFold(beforeColumn.CharacterSet.StringForDiff(), afterColumn.CharacterSet.StringForDiff()) ||
+			!strings.EqualFold(beforeColumn.Collate.StringForDiff(), afterColumn.Collate.StringForDiff()) ||
 			beforeColumn.NotNull != afterColumn.NotNull ||
 			(!dropDefault && !implicitDefaultNull && beforeColumn.Default.StringForDiff() != afterColumn.Default.StringForDiff()) ||
 			beforeColumn.AutoIncrement != afterColumn.AutoIncrement ||
-- 
2.43.0


From 7816232349326e12c51b1a546385f5bf25b592a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:13 +0000
Subject: [PATCH 63/69] fix: the plan dropped a unique index before the table
 or key that refers to it

---
 pkg/ddl/cockroachdb/diff.go | 27 +++++++++++++++------------
 pkg/ddl/postgres/diff.go    | 27 +++++++++++++++------------
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index dcc1fe7..3cb49ec 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -42,28 +42,31 @@ func Diff(before, after *DDL) (*DDL, error) {
 	before, after = inlineIndexes(before, after), inlineIndexes(after, before)
 
 	// DROP INDEX index_name;
-	// DROP TABLE table_name; MEMO: after the indexes, referencing tables before the tables they refer to.
-	dropTableStmts := make([]Stmt, 0)
+	// DROP TABLE table_name; MEMO: after its indexes, referencing tables before the tables, with their unique indexes, they refer to.
+	dropStmts := make([]Stmt, 0)
 	for _, stmt := range onlyLeftStmt(before, after) {
 		switch beforeStmt := stmt.(type) {
+		case *CreateTableStmt, *CreateIndexStmt:
+			dropStmts = append(dropStmts, beforeStmt)
+		default:
+			return nil, apperr.Errorf("%s: %T: %w", beforeStmt.GetNameForDiff(), beforeStmt, ddl.ErrNotSupported)
+		}
+	}
+
+	dropStmts = orderByReference(dropStmts)
+	for i := len(dropStmts) - 1; i >= 0; i-- {
+		switch beforeStmt := dropStmts[i].(type) {
 		case *CreateTableStmt:
-			dropTableStmts = append(dropTableStmts, beforeStmt)
+			result.Stmts = append(result.Stmts, &DropTableStmt{
+				Name: beforeStmt.Name,
+			})
 		case *CreateIndexStmt:
 			result.Stmts = append(result.Stmts, &DropIndexStmt{
 				Name: beforeStmt.Name,
 			})
-		default:
-			return nil, apperr.Errorf("%s: %T: %w", beforeStmt.GetNameForDiff(), beforeStmt, ddl.ErrNotSupported)
 		}
 	}
 
-	dropTableStmts = orderByReference(dropTableStmts)
-	for i := len(dropTableStmts) - 1; i >= 0; i-- {
-		result.Stmts = append(result.Stmts, &DropTableStmt{
-			Name: dropTableStmts[i].(*CreateTableStmt).Name, //nolint:forcetypeassert
-		})
-	}
-
 	// CREATE TABLE table_name
 	// CREATE INDEX index_name ... MEMO: an index of an existing table may use a column that is yet to be added.
 	// MEMO: a foreign key of a new table may refer to a column or key of an existing table that is yet to be added.
diff --git a/pkg/ddl/postgres/diff.go b/pkg/ddl/postgres/diff.go
index 456d97f..e0b4678 100644
--- a/pkg/ddl/postgres/diff.go
+++ b/pkg/ddl/postgres/diff.go
@@ -40,28 +40,31 @@ func Diff(before, after *DDL) (*DDL, error) {
 	}
 
 	// DROP INDEX index_name;
-	// DROP TABLE table_name; MEMO: after the indexes, referencing tables before the tables they refer to.
-	dropTableStmts := make([]Stmt, 0)
+	// DROP TABLE table_name; MEMO: after its indexes, referencing tables before the tables, with their unique indexes, they refer to.
+	dropStmts := make([]Stmt, 0)
 	for _, stmt := range onlyLeftStmt(before, after) {
 		switch beforeStmt := stmt.(type) {
+		case *CreateTableStmt, *CreateIndexStmt:
+			dropStmts = append(dropStmts, beforeStmt)
+		default:
+			return nil, apperr.Errorf("%s: %T: %w", beforeStmt.GetNameForDiff(), beforeStmt, ddl.ErrNotSupported)
+		}
+	}
+
+	dropStmts = orderByReference(dropStmts)
+	for i := len(dropStmts) - 1; i >= 0; i-- {
+		switch beforeStmt := dropStmts[i].(type) {
 		case *CreateTableStmt:
-			dropTableStmts = append(dropTableStmts, beforeStmt)
+			result.Stmts = append(result.Stmts, &DropTableStmt{
+				Name: beforeStmt.Name,
+			})
 		case *CreateIndexStmt:
 			result.Stmts = append(result.Stmts, &DropIndexStmt{
 				Name: beforeStmt.Name,
 			})
-		default:
-			return nil, apperr.Errorf("%s: %T: %w", beforeStmt.GetNameForDiff(), beforeStmt, ddl.ErrNotSupported)
 		}
 	}
 
-	dropTableStmts = orderByReference(dropTableStmts)
-	for i := len(dropTableStmts) - 1; i >= 0; i-- {
-		result.Stmts = append(result.Stmts, &DropTableStmt{
-			Name: dropTableStmts[i].(*CreateTableStmt).Name, //nolint:forcetypeassert
-		})
-	}
-
 	// CREATE TABLE table_name
 	// CREATE INDEX index_name ... MEMO: an index of an existing table may use a column that is yet to be added.
 	// MEMO: a foreign key of a new table may refer to a column or key of an existing table that is yet to be added.
-- 
2.43.0


From d7d8bab2b8ea2d15afbd9a7c753092a6e0c9478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:49 +0000
Subject: [PATCH 64/69] fix: a Spanner table that is dropped and created again
 was not ordered with the other dropped and created tables, nor were the keys
 that refer to it dropped

---
 pkg/ddl/spanner/diff.go | 100 ++++++++++++++++++++++++++++++++++------
 1 file changed, 86 insertions(+), 14 deletions(-)

diff --git a/pkg/ddl/spanner/diff.go b/pkg/ddl/spanner/diff.go
index aa1e819..58efc14 100644
--- a/pkg/ddl/spanner/diff.go
+++ b/pkg/ddl/spanner/diff.go
@@ -2,6 +2,7 @@ package spanner
 
 import (
 	"reflect"
+	"strings"
 
 	errorz "github.com/kunitsucom/util.go/errors"
 	"github.com/kunitsucom/util.go/exp/diff/simplediff"
@@ -39,6 +40,9 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	// DROP TABLE table_name; CREATE TABLE table_name ...
+	recreatedTables := recreatedTables(before, after)
+
 	// DROP INDEX index_name;
 	// DROP TABLE table_name; MEMO: after the indexes, referencing tables before the tables they refer to.
 	dropTableStmts := make([]Stmt, 0)
@@ -55,11 +59,31 @@ func Diff(before, after *DDL) (*DDL, error) {
 		}
 	}
 
+	// MEMO: a table with indexes cannot be dropped, so the indexes of a table to be recreated are recreated too.
+	for _, stmt := range before.Stmts {
+		switch beforeStmt := stmt.(type) {
+		case *CreateTableStmt:
+			if findStmtByTypeAndName(beforeStmt, recreatedTables) != nil {
+				dropTableStmts = append(dropTableStmts, beforeStmt)
+			}
+		case *CreateIndexStmt:
+			afterStmt := findStmtByTypeAndName(beforeStmt, after.Stmts)
+			if afterStmt != nil && findCreateTableStmtByTableName(beforeStmt.TableName, recreatedTables) != nil {
+				result.Stmts = append(result.Stmts, dropIndexStmtToRecreate(beforeStmt, afterStmt.(*CreateIndexStmt))) //nolint:forcetypeassert
+			}
+		}
+	}
+
 	dropTableStmts = orderByReference(dropTableStmts)
 	for i := len(dropTableStmts) - 1; i >= 0; i-- {
-		result.Stmts = append(result.Stmts, &DropTableStmt{
-			Name: dropTableStmts[i].(*CreateTableStmt).Name, //nolint:forcetypeassert
-		})
+		beforeStmt := dropTableStmts[i].(*CreateTableStmt) //nolint:forcetypeassert
+		dropTableStmt := &DropTableStmt{
+			Name: beforeStmt.Name,
+		}
+		if afterStmt := findCreateTableStmtByTableName(beforeStmt.Name, recreatedTables); afterStmt != nil {
+			dropTableStmt.Comment = simplediff.Diff(beforeStmt.Options.String(), afterStmt.Options.String()).String()
+		}
+		result.Stmts = append(result.Stmts, dropTableStmt)
 	}
 
 	// CREATE TABLE table_name
@@ -81,6 +105,8 @@ func Diff(before, after *DDL) (*DDL, error) {
 		}
 	}
 
+	createTableStmts = append(createTableStmts, recreatedTables...)
+
 	result.Stmts = append(result.Stmts, orderByReference(createTableStmts)...)
 
 	// DROP INDEX index_name; ALTER TABLE table_name ...; CREATE INDEX index_name ...
@@ -88,10 +114,12 @@ func Diff(before, after *DDL) (*DDL, error) {
 	alterStmts := make([]Stmt, 0)
 	dropForeignKeyStmts := make([]Stmt, 0)
 	addForeignKeyStmts := make([]Stmt, 0)
-	recreatedTables := make([]Stmt, 0)
 	for _, beforeStmt := range before.Stmts {
 		switch beforeStmt := beforeStmt.(type) { //nolint:gocritic
 		case *CreateTableStmt:
+			if findStmtByTypeAndName(beforeStmt, recreatedTables) != nil {
+				continue
+			}
 			if afterStmt := findStmtByTypeAndName(beforeStmt, after.Stmts); afterStmt != nil {
 				afterStmt := afterStmt.(*CreateTableStmt) //nolint:forcetypeassert
 				alterStmt, err := DiffCreateTable(beforeStmt, afterStmt)
@@ -106,8 +134,16 @@ func Diff(before, after *DDL) (*DDL, error) {
 							alterStmts = append(alterStmts, stmt)
 						}
 					}
-					if _, recreate := alterStmt.Stmts[0].(*DropTableStmt); recreate {
-						recreatedTables = append(recreatedTables, beforeStmt)
+				}
+				// MEMO: a table that a foreign key refers to cannot be dropped.
+				for _, constraint := range beforeStmt.Constraints {
+					if foreignKey, ok := constraint.(*ForeignKeyConstraint); ok && refersTo(foreignKey, recreatedTables) {
+						afterConstraint := findConstraintByName(foreignKey.Name.Name, afterStmt.Constraints)
+						if afterConstraint == nil || afterConstraint.StringForDiff() != foreignKey.StringForDiff() {
+							continue // MEMO: DiffCreateTable drops it.
+						}
+						dropForeignKeyStmts = append(dropForeignKeyStmts, &AlterTableStmt{Name: beforeStmt.Name, Action: &DropConstraint{Name: foreignKey.Name}})
+						addForeignKeyStmts = append(addForeignKeyStmts, &AlterTableStmt{Name: afterStmt.Name, Action: &AddConstraint{Constraint: afterConstraint}})
 					}
 				}
 				errorz.PanicOrIgnore(err, ddl.ErrNoDifference) // MEMO: If before and after table_name is match, DiffCreateTable does not return error except ddl.ErrNoDifference.
@@ -116,14 +152,11 @@ func Diff(before, after *DDL) (*DDL, error) {
 		case *CreateIndexStmt:
 			if afterStmt := findStmtByTypeAndName(beforeStmt, after.Stmts); afterStmt != nil {
 				afterStmt := afterStmt.(*CreateIndexStmt) //nolint:forcetypeassert
-				// MEMO: a table with indexes cannot be dropped, so the indexes of a table to be recreated are recreated too.
-				if beforeStmt.StringForDiff() != afterStmt.StringForDiff() || findCreateTableStmtByTableName(beforeStmt.TableName, recreatedTables) != nil {
-					result.Stmts = append(result.Stmts,
-						&DropIndexStmt{
-							Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
-							Name:    beforeStmt.Name,
-						},
-					)
+				recreated := findCreateTableStmtByTableName(beforeStmt.TableName, recreatedTables) != nil
+				if !recreated && beforeStmt.StringForDiff() != afterStmt.StringForDiff() {
+					result.Stmts = append(result.Stmts, dropIndexStmtToRecreate(beforeStmt, afterStmt))
+				}
+				if recreated || beforeStmt.StringForDiff() != afterStmt.StringForDiff() {
 					createIndexStmts = append(createIndexStmts, afterStmt)
 				}
 			}
@@ -142,6 +175,45 @@ func Diff(before, after *DDL) (*DDL, error) {
 	return result, nil
 }
 
+func dropIndexStmtToRecreate(before, after *CreateIndexStmt) *DropIndexStmt {
+	return &DropIndexStmt{
+		Comment: simplediff.Diff(before.StringForDiff(), after.StringForDiff()).String(),
+		Name:    before.Name,
+	}
+}
+
+// recreatedTables returns the tables of after that are dropped and created again: those whose options differ, and the tables interleaved in them.
+func recreatedTables(before, after *DDL) []Stmt {
+	result := make([]Stmt, 0)
+	for found := true; found; {
+		found = false
+		for _, stmt := range before.Stmts {
+			beforeStmt, ok := stmt.(*CreateTableStmt)
+			if !ok || findCreateTableStmtByTableName(beforeStmt.Name, result) != nil {
+				continue
+			}
+			afterStmt := findCreateTableStmtByTableName(beforeStmt.Name, after.Stmts)
+			if afterStmt == nil {
+				continue
+			}
+			recreate := !strings.EqualFold(beforeStmt.Options.StringForDiff(), afterStmt.Options.StringForDiff())
+			for _, option := range beforeStmt.Options {
+				if option.Name == "INTERLEAVE IN PARENT" {
+					recreate = recreate || findCreateTableStmtByTableName(NewObjectName(option.Value.Idents[0].Raw), result) != nil
+				}
+			}
+			if recreate {
+				result, found = append(result, afterStmt), true
+			}
+		}
+	}
+	return result
+}
+
+func refersTo(foreignKey *ForeignKeyConstraint, tables []Stmt) bool {
+	return findCreateTableStmtByTableName(NewObjectName(foreignKey.Ref.Raw), tables) != nil
+}
+
 // orderByReference returns stmts in their order, except that a table that another one refers to comes before it, with its unique indexes.
 func orderByReference(stmts []Stmt) []Stmt {
 	result := make([]Stmt, 0, len(stmts))
-- 
2.43.0


From fa8cc933356b4f7a965b94886d63e58e46bb4eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:05 +0000
Subject: [PATCH 65/69] fix: only the first of the columns declared by a struct
 field with several names was generated

---
 pkg/internal/lang/go/parse.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index b10f4bd..a2a4ab8 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -157,7 +157,7 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 
 		// columns
 		if r.StructType != nil {
-			for _, field := range r.StructType.Fields.List {
+			for _, field := range splitFields(r.StructType.Fields.List) {
 				// NOTE: ignore no-tag fields
 				if field.Tag == nil {
 					continue
@@ -277,6 +277,23 @@ func isCreateTable(stmt generator.Stmt) bool {
 	return ok
 }
 
+// splitFields returns the struct fields with one name each, because `A, B int` declares two columns.
+func splitFields(fields []*ast.Field) []*ast.Field {
+	result := make([]*ast.Field, 0, len(fields))
+	for _, field := range fields {
+		if len(field.Names) <= 1 {
+			result = append(result, field)
+			continue
+		}
+		for _, name := range field.Names {
+			f := *field
+			f.Names = []*ast.Ident{name}
+			result = append(result, &f)
+		}
+	}
+	return result
+}
+
 // getFieldName returns the name of the struct field. If it is an embedded field, the name of its type is returned.
 func getFieldName(field *ast.Field) string {
 	if len(field.Names) > 0 {
-- 
2.43.0


From ad057d261ca154e533ac12c5197f85e806f0240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:05 +0000
Subject: [PATCH 66/69] fix: the annotations of other tags and sentences with
 table:, constraint:, option: or index: were taken for annotations

---
 pkg/internal/lang/go/parse.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index a2a4ab8..dd10ec5 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -118,6 +118,12 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		for _, comment := range comments {
 			logs.Debug.Printf("[COMMENT DETECTED]: %s:%d: %s", createTableStmt.SourceFile, createTableStmt.SourceLine, comment)
 
+			// NOTE: the line may be a sentence or an annotation for another --go-ddl-tag.
+			if !DDLTagGoCommentLineRegex().MatchString(comment) {
+				createTableStmt.Comments = append(createTableStmt.Comments, comment)
+				continue
+			}
+
 			// NOTE: CREATE INDEX may be written in CREATE TABLE annotation, so process it here
 			if /* CREATE INDEX */ matches := langutil.StmtRegexCreateIndex.Regex.FindStringSubmatch(comment); len(matches) > langutil.StmtRegexCreateIndex.Index {
 				commentMatchedCreateIndex := comment
@@ -262,7 +268,7 @@ func extractContainingCommentFromCommentGroup(commentGroup *ast.CommentGroup, su
 func commentLines(comment *ast.Comment) []string {
 	text, isBlock := strings.CutPrefix(comment.Text, "/*")
 	if !isBlock {
-		return []string{strings.TrimLeftFunc(strings.TrimPrefix(comment.Text, "//"), unicode.IsSpace)}
+		return []string{strings.TrimLeftFunc(strings.TrimLeft(comment.Text, "/"), unicode.IsSpace)}
 	}
 
 	lines := strings.Split(strings.TrimSpace(strings.TrimSuffix(text, "*/")), "\n")
-- 
2.43.0


From a1de32ca8e167db6dd09d992a8d9ed481d00bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:50 +0000
Subject: [PATCH 67/69] fix: a view was taken for a table (PostgreSQL, Spanner)
 or made show, diff and apply fail (MySQL)

---
 pkg/show/mysql/show_create_all_tables.go    | 2 +-
 pkg/show/postgres/show_create_all_tables.go | 4 +++-
 pkg/show/spanner/show_create_all_tables.go  | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/show/mysql/show_create_all_tables.go b/pkg/show/mysql/show_create_all_tables.go
index 9789f1b..c51723f 100644
--- a/pkg/show/mysql/show_create_all_tables.go
+++ b/pkg/show/mysql/show_create_all_tables.go
@@ -52,7 +52,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 	}
 
 	tableNames := new([]*TableName)
-	tableNamesQuery := "SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_SCHEMA = " + databaseQuoted + " ORDER BY TABLE_NAME"
+	tableNamesQuery := "SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_SCHEMA = " + databaseQuoted + " AND TABLE_TYPE = 'BASE TABLE' ORDER BY TABLE_NAME"
 	if err := dbz.QueryContext(ctx, tableNames, tableNamesQuery); err != nil {
 		return "", apperr.Errorf("dbz.QueryContext: q=%s: %w", tableNamesQuery, err)
 	}
diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index 46be5f1..bcedd1a 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -36,8 +36,10 @@ FROM
             ) AS column_defs
         FROM
             information_schema.columns c
+        JOIN
+            information_schema.tables t ON c.table_schema = t.table_schema AND c.table_name = t.table_name
         WHERE
-            c.table_schema = '%s'
+            c.table_schema = '%s' AND t.table_type = 'BASE TABLE'
         GROUP BY
             c.table_schema, c.table_name
     ) clmn
diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index 86c0d11..82f88c7 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -19,7 +19,7 @@ type sqlQueryerContext = interface {
 }
 
 const (
-	querySelectTableName = `SELECT TABLE_NAME, PARENT_TABLE_NAME, ON_DELETE_ACTION FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '' ORDER BY TABLE_NAME;`
+	querySelectTableName = `SELECT TABLE_NAME, PARENT_TABLE_NAME, ON_DELETE_ACTION FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '' AND TABLE_TYPE = 'BASE TABLE' ORDER BY TABLE_NAME;`
 )
 
 type informationSchemaTable struct {
-- 
2.43.0


From c4bb98ebc2b308daa9f3df76db065ea425d0033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:47 +0000
Subject: [PATCH 68/69] fix: a MySQL DECIMAL, BIT or CHAR without its default
 length or scale was planned as changed at every run

---
 pkg/ddl/mysql/ddl.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/mysql/ddl.go b/pkg/ddl/mysql/ddl.go
index 3b788c5..557eaf8 100644
--- a/pkg/ddl/mysql/ddl.go
+++ b/pkg/ddl/mysql/ddl.go
@@ -162,12 +162,28 @@ func (s *DataType) StringForDiff() string {
 		str += string(s.Type)
 	}
 
-	if s.Expr != nil && len(s.Expr.Idents) > 0 {
-		str += "("
+	var args string
+	if s.Expr != nil {
 		for _, ident := range s.Expr.Idents {
-			str += ident.StringForDiff()
+			args += ident.StringForDiff()
+		}
+	}
+	// MEMO: SHOW CREATE TABLE always shows these.
+	switch s.Type { //nolint:exhaustive
+	case TOKEN_DECIMAL, TOKEN_NUMERIC:
+		if args == "" {
+			args = "10"
 		}
-		str += ")"
+		if !strings.Contains(args, ",") {
+			args += ",0"
+		}
+	case TOKEN_BIT, TOKEN_CHAR:
+		if args == "" {
+			args = "1"
+		}
+	}
+	if args != "" {
+		str += "(" + args + ")"
 	}
 
 	return str
-- 
2.43.0


From 656c740f34084c2246727acab14ee3c8282de378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:47 +0000
Subject: [PATCH 69/69] fix: the change of MySQL ENUM values that differ only
 in how commas divide them was not planned

---
 pkg/ddl/mysql/ddl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ddl/mysql/ddl.go b/pkg/ddl/mysql/ddl.go
index 557eaf8..91c543b 100644
--- a/pkg/ddl/mysql/ddl.go
+++ b/pkg/ddl/mysql/ddl.go
@@ -165,6 +165,10 @@ func (s *DataType) StringForDiff() string {
 	var args string
 	if s.Expr != nil {
 		for _, ident := range s.Expr.Idents {
+			if s.Type == TOKEN_ENUM {
+				args += ident.StringForDiffInExpr() // MEMO: a value may contain a comma.
+				continue
+			}
 			args += ident.StringForDiff()
 		}
 	}
-- 
2.43.0

