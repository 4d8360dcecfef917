NOTES = {
 'C15': ('TLA+ state machine of the workflow engine (TLC, exhaustive small scope + simulation); every behaviour replayed on the real engine',
         'All terminal behaviours of the exhaustive configuration and a random sample of larger programs are replayed with the responses the model chose; requests, delays, step records, outputs and errors must match the specification step by step.'),
}
NA = {}
