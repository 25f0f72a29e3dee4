package zzm

import (
	"github.com/hashicorp/go-multierror"
	v "github.com/yields/ant/internal/zzv"
)

//verif:model github.com/hashicorp/go-multierror.Append
func multiAppend(err error, errs ...error) *multierror.Error {
	v.Assert("the model of multierror.Append takes at most one error", len(errs) <= 1)
	m, ok := err.(*multierror.Error)
	if !ok || m == nil {
		m = &multierror.Error{}
		if !ok && err != nil {
			m.Errors = append(m.Errors, err)
		}
	}
	if len(errs) == 1 && errs[0] != nil {
		m.Errors = append(m.Errors, errs[0])
	}
	return m
}
