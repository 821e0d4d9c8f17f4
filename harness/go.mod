module verif/harness

go 1.21.0

require github.com/AfterShip/clickhouse-sql-parser v0.0.0

replace github.com/AfterShip/clickhouse-sql-parser => /repo
