// The signal-watching thread and handlers belong to process start-up; the harnesses raise no signals.
void SInitializeSignals() {}
