module vsimrewrite

go 1.23
