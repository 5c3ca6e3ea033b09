package conf

// documentedDefaults are the published settings and their documented defaults, * is none
var documentedDefaults = map[string]string{
	"registration": "*",
	"registration_collective": "*",
	"registerinterval": "300",
	"registration_splay": "true",
	"collectives": "*",
	"main_collective": "*",
	"logfile": "stdout",
	"loglevel": "info",
	"libdir": "*",
	"identity": "*",
	"color": "true",
	"classesfile": "/opt/puppetlabs/puppet/cache/state/classes.txt",
	"discovery_timeout": "2",
	"rpcaudit": "false",
	"rpcauthorization": "true",
	"rpcauthprovider": "action_policy",
	"rpclimitmethod": "first",
	"ttl": "60",
	"default_discovery_method": "mc",
	"plugin.yaml": "*",
	"default_discovery_options": "*",
	"soft_shutdown_timeout": "2",
	"plugin.choria.puppetserver_host": "puppet",
	"plugin.choria.puppetserver_port": "8140",
	"plugin.choria.puppetca_host": "puppet",
	"plugin.choria.puppetca_port": "8140",
	"plugin.choria.puppetdb_host": "",
	"plugin.choria.puppetdb_port": "8081",
	"plugin.choria.use_srv": "true",
	"plugin.choria.srv_domain": "",
	"plugin.choria.server.provision": "false",
	"plugin.choria.server.provision.allow_update": "false",
	"plugin.choria.discovery.external.command": "*",
	"plugin.choria.discovery.inventory.source": "*",
	"plugin.choria.discovery.broadcast.windowed_timeout": "*",
	"plugin.choria.federation.collectives": "*",
	"plugin.choria.federation_middleware_hosts": "*",
	"plugin.choria.federation.cluster": "mcollective",
	"plugin.choria.stats_address": "127.0.0.1",
	"plugin.choria.stats_port": "0",
	"plugin.choria.legacy_lifecycle_format": "0",
	"plugin.nats.user": "*",
	"plugin.nats.pass": "*",
	"plugin.nats.credentials": "*",
	"plugin.choria.middleware_hosts": "*",
	"plugin.choria.network.client_hosts": "*",
	"plugin.choria.network.public_url": "*",
	"plugin.choria.network.client_port": "4222",
	"plugin.choria.network.client_tls_force_required": "*",
	"plugin.choria.network.client_signer_cert": "*",
	"plugin.choria.network.deny_server_connections": "*",
	"plugin.choria.network.stream.executor_retention": "24h",
	"plugin.choria.network.stream.executor_replicas": "-1",
	"plugin.choria.network.stream.event_retention": "24h",
	"plugin.choria.network.stream.event_replicas": "-1",
	"plugin.choria.network.gateway_name": "CHORIA",
	"plugin.choria.network.gateway_port": "0",
	"plugin.choria.network.gateway_remotes": "*",
	"plugin.choria.network.stream.leader_election_replicas": "-1",
	"plugin.choria.network.stream.leader_election_ttl": "1m",
	"plugin.choria.network.leafnode_port": "0",
	"plugin.choria.network.leafnode_remotes": "*",
	"plugin.choria.network.listen_address": "::",
	"plugin.choria.network.stream.machine_retention": "24h",
	"plugin.choria.network.stream.machine_replicas": "-1",
	"plugin.choria.network.mapping.names": "*",
	"plugin.choria.network.peer_password": "*",
	"plugin.choria.network.peer_port": "*",
	"plugin.choria.network.peer_user": "*",
	"plugin.choria.network.peers": "*",
	"plugin.choria.network.pprof_port": "0",
	"plugin.choria.network.provisioning.client_password": "*",
	"plugin.choria.network.provisioning.provisioner_without_token": "*",
	"plugin.choria.network.provisioning.signer_cert": "*",
	"plugin.choria.network.server_signer_cert": "*",
	"plugin.choria.network.stream.advisory_retention": "168h",
	"plugin.choria.network.stream.advisory_replicas": "-1",
	"plugin.choria.network.stream.manage_streams": "1",
	"plugin.choria.network.stream.store": "*",
	"plugin.choria.network.system.password": "*",
	"plugin.choria.network.system.user": "*",
	"plugin.choria.network.tls_timeout": "2s",
	"plugin.choria.network.auth_timeout": "2s",
	"plugin.choria.network.connect_timeout": "2s",
	"plugin.choria.network.websocket_advertise": "*",
	"plugin.choria.network.websocket_port": "*",
	"plugin.choria.network.write_deadline": "10s",
	"plugin.choria.network.soft_shutdown_timeout": "60",
	"plugin.choria.broker_network": "false",
	"plugin.choria.broker_federation": "false",
	"plugin.choria.adapters": "*",
	"plugin.choria.registration.file_content.data": "",
	"plugin.choria.registration.file_content.target": "",
	"plugin.choria.registration.file_content.compression": "true",
	"plugin.choria.registration.inventory_content.compression": "true",
	"plugin.choria.registration.inventory_content.target": "",
	"plugin.choria.registration.size_trigger": "0",
	"plugin.choria.registration.size_interval": "30",
	"plugin.choria.agent_provider.mcorpc.agent_shim": "*",
	"plugin.choria.agent_provider.mcorpc.config": "*",
	"plugin.choria.agent_provider.mcorpc.libdir": "*",
	"plugin.security.provider": "puppet",
	"plugin.security.server_anon_tls": "false",
	"plugin.security.client_anon_tls": "false",
	"plugin.login.aaasvc.login.url": "*",
	"plugin.security.cipher_suites": "*",
	"plugin.security.ecc_curves": "*",
	"plugin.security.issuer.names": "*",
	"plugin.choria.security.server.token_file": "*",
	"plugin.choria.security.server.seed_file": "*",
	"plugin.choria.ssldir": "*",
	"plugin.choria.security.privileged_users": "\\.privileged.mcollective$,\\.privileged.choria$",
	"plugin.choria.security.certname_whitelist": "\\.mcollective$,\\.choria$",
	"plugin.security.support_legacy_certificates": "false",
	"plugin.choria.security.request_signer.seed_file": "*",
	"plugin.choria.security.request_signer.token_file": "*",
	"plugin.choria.security.request_signer.url": "*",
	"plugin.choria.security.request_signer.service": "*",
	"plugin.security.choria.trusted_signers": "*",
	"plugin.security.choria.certificate": "*",
	"plugin.security.choria.key": "*",
	"plugin.security.choria.ca": "*",
	"plugin.security.choria.token_file": "*",
	"plugin.security.choria.seed_file": "*",
	"plugin.security.choria.sign_replies": "true",
	"plugin.security.file.certificate": "*",
	"plugin.security.file.key": "*",
	"plugin.security.file.ca": "*",
	"plugin.security.certmanager.namespace": "choria",
	"plugin.security.certmanager.issuer": "*",
	"plugin.security.certmanager.replace": "true",
	"plugin.security.certmanager.alt_names": "*",
	"plugin.security.certmanager.api_version": "v1",
	"plugin.security.pkcs11.driver_file": "*",
	"plugin.security.pkcs11.slot": "*",
	"plugin.choria.machine.store": "*",
	"plugin.choria.machine.signing_key": "*",
	"plugin.choria.machine.http_port": "*",
	"plugin.choria.status_file_path": "*",
	"plugin.choria.status_update_interval": "30",
	"plugin.choria.prometheus_textfile_directory": "*",
	"plugin.scout.overrides": "*",
	"plugin.scout.tags": "*",
	"plugin.scout.agent_disabled": "*",
	"plugin.scout.goss.denied_local_resources": "*",
	"plugin.scout.goss.denied_remote_resources": "command",
	"plugin.choria.require_client_filter": "false",
	"plugin.choria.services.registry.store": "*",
	"plugin.choria.services.registry.cache": "*",
	"plugin.choria.submission.spool": "*",
	"plugin.choria.submission.max_spool_size": "500",
	"plugin.rpcaudit.logfile": "*",
	"plugin.rpcaudit.logfile.group": "*",
	"plugin.rpcaudit.logfile.mode": "0600",
	"plugin.choria.executor.enabled": "false",
	"plugin.choria.executor.spool": "*",
	"plugin.machines.download": "*",
	"plugin.machines.bucket": "CHORIA_PLUGINS",
	"plugin.machines.key": "plugins",
	"plugin.machines.purge": "true",
	"plugin.machines.poll_interval": "1m",
	"plugin.machines.check_interval": "30s",
	"plugin.machines.signing_key": "*",
}
