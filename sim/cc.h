// Host-side tools: compiler runs and scratch files.
#pragma once
#include "util.h"
int runTool(const std::vector<std::string>& argv, const std::string& cwd, std::string& out);
void removeTree(const std::string& dir);
bool putFile(const std::string& path, const std::string& data);
