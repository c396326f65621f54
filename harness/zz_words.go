package parser

var vKeywordSet = map[string]bool{
	"ADD": true, "ADMIN": true, "AFTER": true, "ALIAS": true, "ALL": true, "ALTER": true, "AND": true,
	"ANTI": true, "ANY": true, "APPEND": true, "APPLY": true, "ARRAY": true, "AS": true, "ASC": true,
	"ASCENDING": true, "ASOF": true, "AST": true, "ASYNC": true, "ATTACH": true, "BETWEEN": true, "BOTH": true,
	"BY": true, "CACHE": true, "CASE": true, "CAST": true, "CHECK": true, "CLEAR": true, "CLUSTER": true,
	"CODEC": true, "COLLATE": true, "COLLECTION": true, "COLUMN": true, "COLUMNS": true, "COMMENT": true,
	"COMPILED": true, "CONFIG": true, "CONSTRAINT": true, "CREATE": true, "CROSS": true, "CUBE": true,
	"CURRENT": true, "DATABASE": true, "DATABASES": true, "DATE": true, "DAY": true, "DEDUPLICATE": true,
	"DEFAULT": true, "DEFINER": true, "DELAY": true, "DELETE": true, "DEPENDS": true, "DESC": true,
	"DESCENDING": true, "DESCRIBE": true, "DETACH": true, "DETACHED": true, "DICTIONARIES": true,
	"DICTIONARY": true, "DISK": true, "DISTINCT": true, "DISTRIBUTED": true, "DNS": true, "DROP": true,
	"ELSE": true, "EMBEDDED": true, "EMPTY": true, "END": true, "ENGINE": true, "ESTIMATE": true, "EVENTS": true,
	"EVERY": true, "EXCEPT": true, "EXISTS": true, "EXPLAIN": true, "EXPRESSION": true, "EXTRACT": true,
	"FALSE": true, "FETCHES": true, "FILESYSTEM": true, "FILL": true, "FINAL": true, "FIRST": true,
	"FLUSH": true, "FOLLOWING": true, "FOR": true, "FORMAT": true, "FREEZE": true, "FROM": true, "FULL": true,
	"FUNCTION": true, "FUNCTIONS": true, "GLOBAL": true, "GRANT": true, "GRANTEES": true, "GRANULARITY": true,
	"GROUP": true, "GROUPING": true, "HAVING": true, "HIERARCHICAL": true, "HOST": true, "HOUR": true,
	"ID": true, "IDENTIFIED": true, "IF": true, "ILIKE": true, "IN": true, "INDEX": true, "INF": true,
	"INJECTIVE": true, "INNER": true, "INSERT": true, "INTERPOLATE": true, "INTERSECT": true, "INTERVAL": true,
	"INTO": true, "IP": true, "IS": true, "IS_OBJECT_ID": true, "JOIN": true, "JSON": true, "KERBEROS": true,
	"KEY": true, "KILL": true, "LAST": true, "LAYOUT": true, "LDAP": true, "LEADING": true, "LEFT": true,
	"LIFETIME": true, "LIKE": true, "LIMIT": true, "LIVE": true, "LOCAL": true, "LOGS": true, "MARK": true,
	"MATERIALIZE": true, "MATERIALIZED": true, "MAX": true, "MERGES": true, "MIN": true, "MINUTE": true,
	"MODIFY": true, "MONTH": true, "MOVE": true, "MOVES": true, "MUTATION": true, "NAME": true, "NAMED": true,
	"NAN_SQL": true, "NO": true, "NONE": true, "NOT": true, "NULL": true, "NULLS": true, "OFFSET": true,
	"ON": true, "OPTIMIZE": true, "OPTION": true, "OR": true, "ORDER": true, "OUTER": true, "OUTFILE": true,
	"OVER": true, "OVERLAY": true, "OVERLAYUTF8": true, "OVERRIDABLE": true, "PARTITION": true, "PIPELINE": true,
	"PLACING": true, "POLICY": true, "POPULATE": true, "PRECEDING": true, "PREWHERE": true, "PRIMARY": true,
	"PROJECTION": true, "QUARTER": true, "QUERY": true, "QUEUES": true, "QUOTA": true, "RANDOMIZE": true,
	"RANGE": true, "REALM": true, "RECOMPRESS": true, "REFRESH": true, "REGEXP": true, "RELOAD": true,
	"REMOVE": true, "RENAME": true, "REPLACE": true, "REPLICA": true, "REPLICATED": true, "REPLICATION": true,
	"RESET": true, "RESTART": true, "RIGHT": true, "ROLE": true, "ROLLUP": true, "ROW": true, "ROWS": true,
	"SAMPLE": true, "SECOND": true, "SECURITY": true, "SELECT": true, "SEMI": true, "SENDS": true,
	"SERVER": true, "SET": true, "SETS": true, "SETTING": true, "SETTINGS": true, "SHOW": true, "SHUTDOWN": true,
	"SKIP": true, "SOURCE": true, "SQL": true, "STALENESS": true, "START": true, "STEP": true, "STOP": true,
	"SUBSTRING": true, "SYNC": true, "SYNTAX": true, "SYSTEM": true, "TABLE": true, "TABLES": true,
	"TEMPORARY": true, "TEST": true, "THEN": true, "TIES": true, "TIMEOUT": true, "TIMESTAMP": true, "TO": true,
	"TOP": true, "TOTALS": true, "TRAILING": true, "TRIM": true, "TRUE": true, "TRUNCATE": true, "TTL": true,
	"TYPE": true, "UNBOUNDED": true, "UNCOMPRESSED": true, "UNION": true, "UNTIL": true, "UPDATE": true,
	"USE": true, "USER": true, "USING": true, "UUID": true, "VALID": true, "VALUES": true, "VIEW": true,
	"VOLUME": true, "WATCH": true, "WEEK": true, "WHEN": true, "WHERE": true, "WINDOW": true, "WITH": true,
	"YEAR": true,
}
