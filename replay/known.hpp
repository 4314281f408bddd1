// Conditions under which the unchanged library is known to be wrong (see known_findings.jsonl): such operations are not
// generated; the demonstration case is run once and reported.
#pragma once
struct Known {
    std::string name, demo;
    bool (*hit)(const std::string& stack, int n, const std::string& op, const A& a);
};
static const std::vector<Known> KNOWNTAB = {
    // args: in out length k N controls
    { "default-mulmodnout-not-power-of-two", "cpu|4|r87667|98978|dMULModNOut:0,2,2,1,3,0",
        [](const std::string&, int, const std::string& op, const A& a) {
            if (op != "dMULModNOut" && op != "dCMULModNOut") return false;
            u64 N = (u64)a[4];
            return (N & (N - 1)) != 0;
        } },
};
