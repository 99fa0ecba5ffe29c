// Placeholder: the harness replaces this file by the recorded events.
module lg {
  pure val EV: List[List[int]] = []
}
