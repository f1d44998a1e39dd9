// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
