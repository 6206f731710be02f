// Sets up the runs of the decks named in a file and shows what they start from.
#include "sim_dump.h"
int main(int argc, char** argv)
{
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string deck;
    while (std::getline(in, deck)) {
        Ended e = in_child([&]() {
            std::vector<char> path(deck.begin(), deck.end()); path.push_back(0);
            Driver* d = new Driver(path.data());
            d->initialize();
            std::string s = dump_mesh(*d) + "," + dump_sets(*d) + "," + dump_mats(*d) + "," + dump_gauss(*d);
            auto n = dump_nodes(*d);
            return "{" + s + (n.empty() ? "" : "," + n) + "}";
        }, 60);
        if (e.how == "ok") out << "{\"how\":\"ok\",\"got\":" << e.text << "}\n" << std::flush;
        else out << "{\"how\":" << jq(e.how) << ",\"err\":" << jq(e.err) << "}\n" << std::flush;
    }
}
