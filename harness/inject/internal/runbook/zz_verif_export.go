//go:build verif_inner
// +build verif_inner

package runbook

import (
	"github.com/sjansen/pgutil/internal/runbook/types"
	"github.com/sjansen/pgutil/internal/sys"
)

// VerifRun runs tasks on targets the way Run does after parsing a file.
func VerifRun(log sys.Logger, targets types.Targets, tasks types.Tasks) error {
	return newRunner(log, targets, tasks).run()
}
