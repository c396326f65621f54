package main

import "github.com/AfterShip/clickhouse-sql-parser/parser"

func main() { parser.VerifServe() }
