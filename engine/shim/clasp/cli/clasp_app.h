#ifndef VP_CLASP_APP_H
#define VP_CLASP_APP_H
#include <clasp/clasp_facade.h>
#include <potassco/application.h>
#include <fstream>
#include <iostream>
namespace Clasp { namespace Cli {
enum ExitCode { E_UNKNOWN = 0, E_INTERRUPT = 1, E_SAT = 10, E_EXHAUST = 20, E_MEMORY = 33, E_ERROR = 65, E_NO_RUN = 128 };
class Output {
  public:
    virtual ~Output() = default;
    virtual void run(char const *solver, char const *version, std::vector<std::string> const &in) = 0;
    virtual void model(OutputTable const &out, Model const &m) = 0;
    virtual void result(ClaspFacade::Summary const &s) = 0;
};
class TextOutput : public Output {
  public:
    enum Format { format_asp };
    TextOutput(uint32_t verbosity, Format f, char const *catAtom = nullptr, char ifs = ' ');
    void run(char const *solver, char const *version, std::vector<std::string> const &in) override;
    void model(OutputTable const &out, Model const &m) override;
    void result(ClaspFacade::Summary const &s) override;
  protected:
    virtual void printModelValues(OutputTable const &out, Model const &m);
    uint32_t verbosity_;
    char ifs_;
};
struct ClaspAppOptions { std::vector<std::string> input; };
class ClaspAppBase : public Potassco::Application, public EventHandler {
  public:
    struct TextOptions { TextOutput::Format format; uint32_t verbosity; char const *catAtom; char ifs; };
    ~ClaspAppBase() override;
  protected:
    PosOption getPositional() const override { return parsePositional; }
    void initOptions(Potassco::ProgramOptions::OptionContext &root) override;
    void validateOptions(Potassco::ProgramOptions::OptionContext const &root, Potassco::ProgramOptions::ParsedOptions const &parsed, Potassco::ProgramOptions::ParsedValues const &vals) override;
    void setup() override;
    void run() override;
    void shutdown() override;
    void onUnhandled() override;
    virtual void run(ClaspFacade &clasp) { (void)clasp; throw std::runtime_error("clasp mode is not modelled"); }
    virtual ProblemType getProblemType() = 0;
    virtual Output *createTextOutput(TextOptions const &options);
    std::istream &getStream() { return std::cin; }
    bool handlePostGroundOptions(ProgramBuilder &) { return true; }
    bool handlePreSolveOptions(ClaspFacade &) { return true; }
    void onEvent(Event const &ev) override;
    bool onModel(Solver const &s, Model const &m) override;
    void printLibClaspVersion() const { printf("libclasp version 0.0.0 (miniclasp)\n"); }
    void printLicense() const { printf("License: The MIT License <https://opensource.org/licenses/MIT>\n"); }
    static bool parsePositional(std::string const &s, std::string &out);
    ClaspCliConfig claspConfig_;
    ClaspAppOptions claspAppOpts_;
    std::unique_ptr<ClaspFacade> clasp_;
    std::unique_ptr<Output> out_;
    int outf_ = 0;
};
} }
#endif
