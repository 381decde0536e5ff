// Functions without a body need an assembly file.
