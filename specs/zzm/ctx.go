package zzm

import (
	"context"

	v "github.com/yields/ant/internal/zzv"
)

// CtxDone is the context's done channel, which is nil or closed in the end.
func CtxDone(ctx context.Context) <-chan struct{} {
	return v.UF[<-chan struct{}]("ctx.done", ctx)
}

//verif:model (context.Context).Done
func ctxDone(ctx context.Context) <-chan struct{} { return CtxDone(ctx) }
