package antcache

import (
	"context"
	"os"

	v "github.com/yields/ant/internal/zzv"
)

//verif:property C28
//verif:covers every key and index, with sweeps and other stores at any time
func verif_C28_load(d *Diskstore, ctx context.Context, key uint64) {
	s := diskSpec(d, key)
	content := v.Any[string]()
	reads := 0
	swept := false
	var rerr error
	v.Stub("os.ReadFile", func(p string) ([]byte, error) {
		v.Assert("C28: the index was asked first", s.locks > 0)
		v.Assert("C28: only an indexed key's file is read", s.wasIn)
		v.Assert("C28: the file published for the key is read", p == s.was.path)
		reads++
		if v.And(s.released(), v.Any[bool]()) {
			swept = true // meanwhile
			return nil, os.ErrNotExist
		}
		if rerr = v.Any[error](); rerr != nil {
			return nil, rerr
		}
		return bytesOfSpec(content), nil
	})
	got, err := d.Load(ctx, key)
	v.Cover("loaded")
	v.Ensures("C28: every lock taken is released", s.released())
	v.Ensures("C28: the index is asked", s.locks > 0)
	v.Ensures("C28: the index stays", !s.changed)
	v.Ensures("C28: a key that was never stored is a clean miss", v.Imp(!s.wasIn, v.And(got == nil, v.And(err == nil, reads == 0))))
	v.Ensures("C28: so is one that was swept", v.Imp(swept, v.And(got == nil, err == nil)))
	v.Ensures("C28: a key that is stored is read", v.Imp(s.wasIn, reads > 0))
	v.Ensures("C28: a failure to read is an error, without data", v.Imp(rerr != nil, v.And(err != nil, got == nil)))
	fine := v.And(s.wasIn, v.And(!swept, rerr == nil))
	v.Ensures("C28: the file's contents are returned", v.Imp(v.And(fine, !d.compress), v.And(err == nil, v.And(got != nil, string(got) == content))))
	v.Ensures("C28: decompressed if compression is on", v.Imp(v.And(fine, v.And(d.compress, snappyValidSpec(content))), v.And(err == nil, v.And(got != nil, string(got) == unsnappySpec(content)))))
	v.Ensures("C28: a failure to decompress is an error, without data", v.Imp(v.And(fine, v.And(d.compress, !snappyValidSpec(content))), v.And(err != nil, got == nil)))
}
