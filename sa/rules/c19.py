"""Abstract interpretation of extracting a packet from a ring buffer and from a pipe, with a symbolic number of buffered
bytes, symbolic head size, announced size and short reads: a failed extraction consumed nothing, left an empty packet and happened only
because fewer bytes than head plus content are buffered; a successful one consumed exactly head plus content and the packet's memory holds
exactly those stream positions. A build from a pipe succeeds only if exactly the announced bytes were read. Analysed with assertions on and off."""
from rules import c18
LEVEL = "proof"
def run(ctx): c18.run(ctx, ("build_from_ringbuf", "build_from_pipe"), 60)
