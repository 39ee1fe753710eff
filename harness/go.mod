module verifharness

go 1.25.0

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/gostdlib/concurrency v0.0.0
	go.opentelemetry.io/otel v1.33.0
	go.opentelemetry.io/otel/trace v1.33.0
)

require (
	github.com/Jeffail/tunny v0.1.4 // indirect
	github.com/johnsiilver/calloptions v0.0.0-20220728170214-4d61e3e677aa // indirect
	github.com/johnsiilver/pools v0.0.0-20221216174331-e94bf08bc72b // indirect
	github.com/fsnotify/fsnotify v1.8.0  // indirect
	github.com/google/btree v1.1.3  // indirect
	github.com/hashicorp/hcl v1.0.0  // indirect
	github.com/inconshreveable/mousetrap v1.1.0  // indirect
	github.com/jackc/chunkreader/v2 v2.0.1  // indirect
	github.com/jackc/pgio v1.0.0  // indirect
	github.com/jackc/pgpassfile v1.0.0  // indirect
	github.com/jackc/pgproto3/v2 v2.3.3  // indirect
	github.com/jackc/pgservicefile v0.0.0-20240606120523-5a60cdf6a761  // indirect
	github.com/jackc/pgtype v1.14.4  // indirect
	github.com/jackc/puddle v1.3.0  // indirect
	github.com/magiconair/properties v1.8.9  // indirect
	github.com/mitchellh/mapstructure v1.5.0  // indirect
	github.com/pelletier/go-toml/v2 v2.2.3  // indirect
	github.com/sagikazarmark/locafero v0.6.0  // indirect
	github.com/sagikazarmark/slog-shim v0.1.0  // indirect
	github.com/sourcegraph/conc v0.3.0  // indirect
	github.com/spf13/afero v1.11.0  // indirect
	github.com/spf13/cast v1.7.1  // indirect
	github.com/spf13/pflag v1.0.5  // indirect
	github.com/subosito/gotenv v1.6.0  // indirect
	go.uber.org/multierr v1.11.0  // indirect
	golang.org/x/crypto v0.31.0  // indirect
	golang.org/x/exp v0.0.0-20241217172543-b2144cdd0a67  // indirect
	golang.org/x/sys v0.28.0  // indirect
	golang.org/x/text v0.21.0  // indirect
	gopkg.in/ini.v1 v1.67.0  // indirect
	gopkg.in/yaml.v3 v3.0.1  // indirect
	github.com/cenkalti/backoff v2.2.1+incompatible // indirect
	github.com/go-json-experiment/json v0.0.0-20241230001524-0240acd0e023 // indirect
	github.com/google/uuid v1.6.0 // indirect
	github.com/gostdlib/internals v0.0.0-20240319155855-57c259c0554f // indirect
	github.com/jackc/pgconn v1.14.3 // indirect
	github.com/jackc/pgx/v4 v4.18.3 // indirect
	github.com/jmoiron/sqlx v1.4.0 // indirect
	github.com/johnsiilver/dynamics v0.0.0-20230101203615-b9956702f6a2 // indirect
	github.com/jszwec/csvutil v1.10.0 // indirect
	github.com/kylelemons/godebug v1.1.0 // indirect
	github.com/spf13/cobra v1.8.1 // indirect
	github.com/spf13/viper v1.19.0 // indirect
)

replace github.com/gostdlib/concurrency => /repo
