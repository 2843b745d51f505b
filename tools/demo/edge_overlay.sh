# Stand-ins for the parts of the Fastly SDK that call the edge platform.
S=$(cd "$R" && go list -m -f '{{.Dir}}' github.com/fastly/compute-sdk-go)
fake() { # fake <package> <file> <function pattern> <stand-in>
  f=$T/fake_${1//\//_}_$2
  sed "s/$3/&__real/" "$S/$1/$2" > "$f"
  cat "$D/$4" >> "$f"
  printf ',"%s":"%s"' "$S/$1/$2" "$f"
}
fake fsthttp request.go 'func (req \*Request) Send\b' fake_fsthttp.txt
fake cache/simple simple.go 'func GetOrSet\b' fake_simple.txt
fake configstore configstore.go 'func Open\b\|func (s \*Store) Get\b' fake_configstore.txt
