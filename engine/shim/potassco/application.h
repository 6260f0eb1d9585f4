#ifndef VP_APPLICATION_H
#define VP_APPLICATION_H
#include <potassco/program_opts/program_options.h>
#include <iostream>
namespace Potassco {
class Application {
  public:
    using HelpOpt = std::pair<char const *, unsigned>;
    using PosOption = ProgramOptions::PosOption;
    virtual ~Application() = default;
    virtual char const *getName() const = 0;
    virtual char const *getVersion() const = 0;
    virtual char const *getUsage() const { return "[options]"; }
    virtual HelpOpt getHelpOption() const { return HelpOpt("Print help information and exit", 1); }
    virtual PosOption getPositional() const { return nullptr; }
    int main(int argc, char **argv) {
        exitCode_ = 0;
        try {
            ProgramOptions::OptionContext root("<" + std::string(getName()) + ">");
            bool help = false, version = false;
            std::string verb;
            ProgramOptions::OptionGroup basic("Basic Options");
            basic.addOptions()("help,h", ProgramOptions::flag(help), "Print help information and exit")
                ("version,v", ProgramOptions::flag(version), "Print version information and exit")
                ("verbose,V", (new ProgramOptions::Value([this](std::string const &, std::string const &v) { return v.empty() || string_cast<unsigned>(v, verbose_); })), "Verbosity level");
            root.add(basic);
            initOptions(root);
            auto vals = ProgramOptions::parseArgs(std::vector<std::string>(argv + (argc > 0 ? 1 : 0), argv + argc), root, getPositional());
            ProgramOptions::ParsedOptions parsed;
            parsed.assign(vals);
            if (help) { printHelp(root); return 0; }
            if (version) { printVersion(); return 0; }
            validateOptions(root, parsed, vals);
            setup();
            run();
            shutdown();
        } catch (Exit const &e) {
            exitCode_ = e.code;
        } catch (std::exception const &e) {
            error(e.what());
            exitCode_ = 65;
            onUnhandled();
        }
        fflush(stdout);
        return exitCode_;
    }
    unsigned verbose() const { return verbose_; }
    void setVerbose(unsigned v) { verbose_ = v; }
    void exit(int code) const { throw Exit{code}; }
    void error(char const *msg) const { fflush(stdout); fprintf(stderr, "*** ERROR: (%s): %s\n", getName(), msg); }
    void setExitCode(int c) { exitCode_ = c; }
    int getExitCode() const { return exitCode_; }
    virtual void printHelp(ProgramOptions::OptionContext const &root) { printf("%s version %s\n", getName(), getVersion()); printUsage(); ProgramOptions::FileOut out(stdout); root.description(out); }
    virtual void printVersion() { printf("%s version %s\n", getName(), getVersion()); printf("Address model: %d-bit\n", int(sizeof(void *) * 8)); }
    virtual void printUsage() { printf("usage: %s %s\n", getName(), getUsage()); }
  protected:
    struct Exit { int code; };
    virtual void initOptions(ProgramOptions::OptionContext &root) = 0;
    virtual void validateOptions(ProgramOptions::OptionContext const &root, ProgramOptions::ParsedOptions const &parsed, ProgramOptions::ParsedValues const &vals) = 0;
    virtual void setup() = 0;
    virtual void run() = 0;
    virtual void shutdown() {}
    virtual void onUnhandled() {}
  private:
    unsigned verbose_ = 1;
    int exitCode_ = 0;
};
} // namespace Potassco
#endif
