#pragma once
void loadMri(const char* imagePath);   // map the shipped image, relocate it, splice in the repository's platform layer
