# Notes per property for MANIFEST.json
EXTRA.update({})
