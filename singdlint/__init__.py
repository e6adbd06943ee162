"""Static analyser for f-dangel/singd (abstract interpretation of the source)."""
