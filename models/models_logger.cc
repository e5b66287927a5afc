#include "util/logger.h"
namespace spectatord {
LogManager::LogManager() noexcept : logger_(std::make_shared<spdlog::logger>("")) {}
std::shared_ptr<spdlog::logger> LogManager::Logger() noexcept { return logger_; }
std::shared_ptr<spdlog::logger> LogManager::GetLogger(const std::string&) noexcept { return logger_; }
LogManager& log_manager() noexcept { static auto* m = new LogManager(); return *m; }
}
